"""Monitors of game records: CSA, KIF and KI2 files written and read back, board diagrams, PGN move text.

Every record is written twice, by the exporter under test and by an independent writer (so that an error of the exporter
and one of the parser cannot cancel out), and the exporter's text is also read by an independent reader.
"""
import os
import re
import shutil
import tempfile
from datetime import datetime

import cshogi as C
from cshogi import CSA, KI2, KIF, PGN, Board
from core_util import BOARD_NAMES, FULL, KALT, KANJI, KNAME, csa_of, fields, kif_move, ref_board_of
from mon import Mon
from refm import Ref, start_position

M = Mon()
R = M.rng
TMP = tempfile.mkdtemp(prefix='rec_')
BLACK, WHITE = 0, 1
WIN = {BLACK: C.BLACK_WIN, WHITE: C.WHITE_WIN, None: C.DRAW}
START = 'lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1'


def text(n=12, alphabet='abcXYZ019 _.,:+-*日本将棋'):
    return ''.join(R.choice(alphabet) for _ in range(R.randrange(1, n)))


class Game:
    """A start position, its moves and the position reached, kept by the reference model."""

    def __init__(self, r, i, sfen=None, plies=60):
        if sfen:
            r.set(sfen)
        else:
            start_position(r, R, i)
        self.sfen = r.sfen()
        self.turn0 = r.turn
        self.moves, self.usi, self.sfens = [], [], [self.sfen]
        pol = R.randrange(7)
        for _ in range(R.randrange(plies + 1)):
            m = r.pick(pol if R.random() < .6 else 0)
            if not m:
                break
            self.moves.append(m)
            self.usi.append(r.usi(m))
            r.apply(m)
            self.sfens.append(r.sfen())
        self.turn = r.turn

    def key(self):
        return self.sfen + ' ' + ' '.join(self.usi)


def pos(sfen):
    """Position part of an SFEN, with the hand normalised."""
    t = sfen.split(' ')
    return t[0], t[1], sorted(re.findall(r'\d*[A-Za-z]', t[2]))


# ---------------------------------------------------------------- CSA
RANKS = range(9)
CODE = {0: None}


def csa_setup(sfen, how):
    """CSA lines describing the position of an SFEN, written in one of the styles the format allows."""
    bd, hand, turn = ref_board_of(sfen)
    out = []
    if how == 'PI':
        start, _, _ = ref_board_of(START)
        gone = [(f, r) for f in range(9) for r in RANKS if start[f * 9 + r] and not bd[f * 9 + r]]
        out.append('PI' + ''.join('%d%d%s' % (f + 1, r + 1, BOARD_NAMES[start[f * 9 + r] & 15]) for f, r in gone))
    elif how == 'P1':
        for r in RANKS:
            out.append('P%d' % (r + 1) + ''.join(' * ' if not bd[f * 9 + r] else '+-'[bd[f * 9 + r] >> 4] + BOARD_NAMES[bd[f * 9 + r] & 15] for f in range(8, -1, -1)))
    else:
        sq = [s for s in range(81) if bd[s]]
        R.shuffle(sq)
        for c in (0, 1):
            mine = [s for s in sq if bd[s] >> 4 == c]
            while mine:
                n = R.randrange(1, 10)
                out.append('P' + '+-'[c] + ''.join('%d%d%s' % (s // 9 + 1, s % 9 + 1, BOARD_NAMES[bd[s] & 15]) for s in mine[:n]))
                mine = mine[n:]
    for c in (0, 1):
        hp = [p for p, n in enumerate(hand[c]) for _ in range(n)]
        R.shuffle(hp)
        while hp:
            n = R.randrange(1, 19)
            out.append('P' + '+-'[c] + ''.join('00' + ('FU', 'KY', 'KE', 'GI', 'KI', 'KA', 'HI')[p] for p in hp[:n]))
            hp = hp[n:]
    out.append('+-'[turn])
    return out


def csa_read(s):
    """An independent reading of one CSA record, as the exporter writes it."""
    d = dict(board=[0] * 81, hand=[[0] * 7, [0] * 7], turn=None, moves=[], names=[None, None], info={}, comments=[], end=None, version=None)
    cur = None
    for ln in s.split('\n'):
        if not ln:
            continue
        if ln[0] == 'P':
            if ln[1] == 'I':
                d['board'] = list(ref_board_of(START)[0])
            elif ln[1].isdigit():
                for i in range(9):
                    p = ln[2 + 3 * i:5 + 3 * i]
                    d['board'][(8 - i) * 9 + int(ln[1]) - 1] = 0 if p == ' * ' else BOARD_NAMES.index(p[1:]) + 16 * (p[0] == '-')
            else:
                c = '+-'.index(ln[1])
                for i in range(2, len(ln), 4):
                    q, p = ln[i:i + 2], ln[i + 2:i + 4]
                    if q == '00':
                        d['hand'][c][('FU', 'KY', 'KE', 'GI', 'KI', 'KA', 'HI').index(p)] += 1
                    else:
                        d['board'][(int(q[0]) - 1) * 9 + int(q[1]) - 1] = BOARD_NAMES.index(p) + 16 * c
            continue
        if ln[0] == 'N' and ln[1] in '+-':
            d['names']['+-'.index(ln[1])] = ln[2:]
        elif ln[0] == '$':
            k, v = ln[1:].split(':', 1)
            d['info'][k] = v
        elif ln[0] == 'V':
            d['version'] = ln
        elif ln in '+-':
            d['turn'] = '+-'.index(ln)
        else:
            st, cm = (ln.split(",'", 1) + [None])[:2] if ln[0] != "'" else (ln, None)
            for part in st.split(',') if ln[0] != "'" else [ln]:
                if part[0] in '+-':
                    cur = dict(side='+-'.index(part[0]), move=part[1:], time=None, comment=None)
                    d['moves'].append(cur)
                elif part[0] == 'T':
                    (d['end'] if d['end'] else cur)['time'] = int(part[1:])
                elif part[0] == '%':
                    d['end'] = dict(name=part, time=None)
                elif part[0] == "'":
                    if cur:
                        cur['comment'] = (cur['comment'] + '\n' if cur['comment'] else '') + part[1:]
                    else:
                        d['comments'].append(part[1:])
            if cm is not None:
                cur['comment'] = cm
    return d


ENDS = ['%TORYO', '%TIME_UP', '%ILLEGAL_MOVE', '%+ILLEGAL_ACTION', '%-ILLEGAL_ACTION', '%KACHI', '%SENNICHITE', '%JISHOGI', '%CHUDAN', '%HIKIWAKE', '%MATTA', '%TSUMI', '%FUZUMI', '%ERROR']


def winner(end, turn):
    if end in ('%TORYO', '%TIME_UP', '%ILLEGAL_MOVE'):
        return 1 - turn
    return {'%+ILLEGAL_ACTION': WHITE, '%-ILLEGAL_ACTION': BLACK, '%KACHI': turn}.get(end)


def csa_compare(p, g, e, key, show):
    """A parsed record against what was written (e: expected attributes)."""
    def ck(name, got, want):
        M.check(got == want, key + '.' + name, lambda: 'got %r want %r in\n%s' % (got, want, show()))
    ck('sfen', pos(p.sfen), pos(g.sfen))
    ck('moves', list(p.moves), g.moves)
    for k, v in e.items():
        got = getattr(p, k)
        if k == 'ratings':
            got = [float(x) for x in got]
        ck(k, got, v)


def csa():
    r = Ref(M.seed * 7919 + M.shard)
    keep = C.Parser()
    path = os.path.join(TMP, 'a.csa')
    for i in range(M.cases):
        g = Game(r, i)
        M.distinct(g.key())
        end = R.choice(ENDS) if R.random() < .9 else None
        names = [text(), text()]
        info = {k: text() for k in ('EVENT', 'SITE', 'START_TIME', 'TIME_LIMIT') if R.random() < .5}
        times = [R.choice([0, 1, 59, 3600, R.randrange(100000)]) if R.random() < .9 else None for _ in g.moves]
        cm = []
        for _ in g.moves:
            k = R.random()
            sc = R.choice([0, 1, -1, 100000, -100000, R.randrange(-32767, 32768)])
            cm.append(None if k < .4 else ('%d' % sc, sc) if k < .6 else ('%d +7776FU -3334FU' % sc, sc) if k < .8 else (R.choice('評価') + text(), 0))
        # own writer
        how = R.choice(['P1', 'P+'] + (['PI'] if g.sfen == START else []))
        L = ['V2.2', 'N+' + names[0], 'N-' + names[1]] + ['$%s:%s' % x for x in info.items()]
        rate = [float(R.randrange(100, 4000)), float(R.randrange(100, 4000))]
        gc = [text() for _ in range(R.randrange(3))]
        gc = [x for x in gc if not x.startswith('** ')]
        if R.random() < .5:
            L += ["'black_rate:%s:%.1f" % (text(alphabet='abcXYZ019+-'), rate[0]), "'white_rate:%s:%.1f" % (text(alphabet='abcXYZ019+-'), rate[1])]
        else:
            rate = [0., 0.]
        L += ["'" + x for x in gc] + csa_setup(g.sfen, how)
        for j, m in enumerate(g.moves):
            t, c = times[j], cm[j]
            side = '+-'[(g.turn0 + j) & 1]
            one = R.random() < .4
            s = side + csa_of(m)
            if one:
                if t is not None:
                    s += ',T%d' % t
                if c and not c[1]:
                    s += ",'" + c[0]
                    c = None
                L.append(s)
            else:
                L.append(s)
                if t is not None:
                    L.append('T%d' % t)
            if c:
                L.append("'** " + c[0])
            if R.random() < .05:
                L.append('')
        want_t = [t or 0 for t in times]
        e = dict(version='V2.2', names=names, var_info=info, ratings=rate, scores=[c[1] if c else 0 for c in cm], comments=[c[0] if c else '' for c in cm],
                 endgame=end or '', win=WIN[winner(end, g.turn)], comment=''.join("'" + x + '\n' for x in gc))
        if end:
            L.append(end + (',T1' if R.random() < .2 else ''))
            if R.random() < .5:
                L.append('T7')
                want_t.append(7)
        elif R.random() < .6:
            k, e['endgame'], w = R.choice([('illegal move', '%ILLEGAL_MOVE', 1 - g.turn), ('max_moves', '%JISHOGI', None), ('abnormal', '%ERROR', None), ('toryo', '', None)])
            s = "'summary:%s:a win:b lose" % k
            L.append(s)
            e['comment'] += s + '\n'
            e['win'] = WIN[w]
            M.count('summary')
        e['times'] = want_t
        s = '\n'.join(L) + ('\n' if R.random() < .8 else '')
        M.crumb('csa parse ' + s)
        M.eval()
        M.count('setup.' + how)
        M.count('end.' + (end or 'none'))
        M.count('moves', len(g.moves))
        try:
            keep.parse_csa_str(s)
            csa_compare(keep, g, e, 'csa-parse', lambda: s)
            with open(path, 'w', encoding='utf-8', newline='\n') as f:
                f.write(s)
            p2 = C.Parser()
            p2.parse_csa_file(path)
            csa_compare(p2, g, e, 'csa-parse-file', lambda: s)
        except Exception as x:
            M.violation('csa-parse-raise', '%r on\n%s' % (x, s))
        # exporter, several games in one file
        csa_export(path, g, names, info, times, cm, end, i)
        M.sample(s[:600])


def csa_export(path, g, names, info, times, cm, end, i):
    games, app = [], i % 3 == 0
    M.crumb('csa export ' + g.key())
    if app and os.path.exists(path):
        os.remove(path)
    for k in range(2 if app else 1):
        x = CSA.Exporter(path, append=app, encoding='utf-8')
        form = R.choice(['none', 'str', 'board'])
        if form == 'none' and g.sfen != START:
            form = 'board'
        ib = None if form == 'none' else g.sfen if form == 'str' else Board(g.sfen)
        com = R.choice([None, 'comment x', "'quoted\n"])
        b = Board(g.sfen)
        sep = R.choice(['\n', ','])
        cs = []
        try:
            x.info(ib, names=names, var_info=info, comment=com, version='V2.2')
            for m, t, c in zip(g.moves, times, cm):
                c = c and ('** ' + c[0] if sep == '\n' else c[0])
                cs.append(c)
                x.move(m, time=t, comment=c, sep=sep)
                b.push(m)
            if end:
                x.endgame(end, time=5 if k else None)
        except Exception as y:
            M.violation('csa-export-raise', '%r exporting %s as %s' % (y, g.key(), form))
            x.close()
            return
        x.close()
        games.append((form, com, sep, cs, 5 if k and end else None))
        M.count('export.' + form)
        M.count('export.sep' + ('nl' if sep == '\n' else 'comma'))
    s = open(path, encoding='utf-8').read()
    show = lambda: 'export of %s:\n%s' % (g.key(), s)
    recs = s.split('\n/\n')
    if not M.check(len(recs) == len(games), 'csa-export.records', show):
        return
    try:
        ps = C.Parser.parse_file(path, encoding='utf-8')
        ps2 = C.Parser.parse_str(s)
    except Exception as y:
        M.violation('csa-roundtrip-raise', '%r %s' % (y, show()))
        return
    M.check(len(ps) == len(ps2) == len(games), 'csa-roundtrip.records', show)
    bd, hand, turn = ref_board_of(g.sfen)
    for rec, p, p2, (form, com, sep, cs, et) in zip(recs, ps, ps2, games):
        M.eval()
        try:
            d = csa_read(rec)
        except Exception as y:
            M.violation('csa-export-unreadable', '%r %s' % (y, show()))
            continue
        M.check((d['board'], d['hand'], d['turn']) == (bd, hand, turn), 'csa-export.position', show)
        M.check([(m['side'], m['move']) for m in d['moves']] == [((turn + j) & 1, csa_of(m)) for j, m in enumerate(g.moves)], 'csa-export.moves', show)
        M.check([m['time'] for m in d['moves']] == times, 'csa-export.times', show)
        M.check([m['comment'] for m in d['moves']] == cs, 'csa-export.comments', show)
        M.check(d['names'] == names and d['info'] == info and d['version'] == 'V2.2', 'csa-export.header', show)
        M.check(d['comments'] == ([com.strip("'\n")] if com else []), 'csa-export.comment', show)
        M.check((d['end'] or {}).get('name') == end and (d['end'] or {}).get('time') == et, 'csa-export.end', show)
        e = dict(names=names, var_info=info, version='V2.2', times=[t or 0 for t in times] + ([et] if et else []), endgame=end or '', win=WIN[winner(end, g.turn)],
                 comments=[c[0] if c else '' for c in cm], comment="'" + com.strip("'\n") + '\n' if com else '')
        if sep == '\n':
            e['scores'] = [c[1] if c else 0 for c in cm]
        for q in (p, p2):
            csa_compare(q, g, e, 'csa-roundtrip', show)


# ---------------------------------------------------------------- KIF
HANDI = {
    '平手': START,
    '香落ち': 'lnsgkgsn1/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '右香落ち': '1nsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '角落ち': 'lnsgkgsnl/1r7/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '飛車落ち': 'lnsgkgsnl/7b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '飛香落ち': 'lnsgkgsn1/7b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '二枚落ち': 'lnsgkgsnl/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '三枚落ち': 'lnsgkgsn1/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '四枚落ち': '1nsgkgsn1/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '五枚落ち': '2sgkgsn1/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '左五枚落ち': '1nsgkgs2/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '六枚落ち': '2sgkgs2/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '八枚落ち': '3gkg3/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
    '十枚落ち': '4k4/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1',
}


KENDS = {  # reason: (move line, result line for the side to move / the other side, endgame, winner relative to the side to move)
    'resign': ('投了', '{o}の勝ち', '%TORYO', 1), 'win': ('入玉勝ち', '{t}の入玉勝ち', '%KACHI', 0), 'draw': ('持将棋', '持将棋', '%JISHOGI', None),
    'sennichite': ('千日手', '千日手', '%SENNICHITE', None), 'illegal_win': ('反則勝ち', '{t}の反則勝ち', '%{f}ILLEGAL_ACTION', 0),
    'illegal_lose': ('反則負け', '{t}の反則負け', '%ILLEGAL_MOVE', 1), 'chudan': ('中断', '中断', '%CHUDAN', 'none'),
    'mated': ('詰み', '{o}の勝ち', '%TORYO', 1), 'timeup': ('切れ負け', '{o}の勝ち', '%TORYO', 1), 'declared': ('入玉宣言', '{t}の入玉勝ち', '%KACHI', 0)}
TEXT_ONLY = ('chudan', 'mated', 'timeup', 'declared')


def kif_expect(reason, turn):
    _, _, eg, w = KENDS[reason]
    return eg.format(f='+-'[1 - turn]), None if w == 'none' else C.DRAW if w is None else WIN[turn ^ w]


def kif():
    r = Ref(M.seed * 7919 + M.shard)
    names0 = list(HANDI)
    for i in range(M.cases):
        h = names0[(i * M.shards + M.shard) % len(names0)] if R.random() < .7 else '平手'
        g = Game(r, i, sfen=HANDI[h], plies=90)
        M.distinct(g.key())
        M.count('handicap.' + h)
        kif_text(g, h)
        kif_export(g, h)
        if R.random() < .3:
            kif_hands(r)
            kif_setup_export(r, i)
        M.count('moves', len(g.moves))


def kif_text(g, h):
    names = [text(), text()]
    names = [n.strip() or 'x' for n in names]
    side = R.choice([('先手', '後手'), ('下手', '上手')])
    reason = R.choice(list(KENDS))
    when = datetime(R.randrange(1980, 2030), R.randrange(1, 13), R.randrange(1, 29), R.randrange(24), R.randrange(60), R.randrange(60))
    if R.random() < .2:
        when = when.replace(second=0)
    L = ['# comment line', '開始日時：' + when.strftime('%Y/%m/%d %H:%M' if when.second == 0 and R.random() < .7 else '%Y/%m/%d %H:%M:%S'), '手合割：' + h + R.choice(['', '　　'])]
    info = {k: text(alphabet='abcXYZ019日本将棋') for k in ('棋戦', '場所', '持ち時間') if R.random() < .5}
    L += ['%s：%s' % x for x in info.items()] + ['%s：%s' % (side[0], names[0]), '%s：%s' % (side[1], names[1])]
    hc = [text() for _ in range(R.randrange(3))]
    L += ['*' + x for x in hc] + ['手数----指手---------消費時間--']
    timed = R.random() < .8
    times, cms, tot = [], [], 0
    for j, m in enumerate(g.moves):
        t = R.choice([0, 1, 59, 60, 61, R.randrange(4000)])
        tot += t
        s = '%4d %s' % (j + 1, kif_move(m, g.moves[j - 1] if j else None, R.random() < .3))
        if timed:
            s += '      (%2d:%02d/%02d:%02d:%02d)' % (t // 60, t % 60, tot // 3600, tot // 60 % 60, tot % 60) if R.random() < .8 else ' ( %d:%02d:%02d/%02d:%02d:%02d)' % (t // 3600, t // 60 % 60, t % 60, tot // 3600, tot // 60 % 60, tot % 60)
            times.append(t)
        L.append(s + R.choice(['', '', '+']))
        c = None
        if R.random() < .25:
            c = [text(alphabet='abcXYZ019日本将棋 ') for _ in range(R.choice([1, 1, 2, 3]))]
            L += [R.choice(['*', '**']) + x for x in c]
            c = '\n'.join(c)
        cms.append(c)
    mv, res, _, _ = KENDS[reason]
    L.append('%4d %s' % (len(g.moves) + 1, mv) + ('        ( 0:03/00:00:03)' if timed else ''))
    if timed:
        times.append(3)
    L.append('まで%s%d手で' % (R.choice(['', '、']), len(g.moves)) + res.format(t=side[g.turn], o=side[1 - g.turn]))
    if R.random() < .3:
        L += ['', '変化：1手', '   1 ２六歩(27)']
    s = R.choice(['\n', '\r\n']).join(L) + '\n'
    M.crumb('kif parse ' + s)
    M.eval()
    M.count('end.' + reason)
    try:
        p = KIF.Parser.parse_str(s)
    except Exception as x:
        M.violation('kif-parse-raise', '%r on\n%s' % (x, s))
        return
    M.check(info.items() <= p.var_info.items(), 'kif-parse.var_info', lambda: s)
    kif_compare(p, g, dict(names=names, starttime=when, comment='\n'.join(hc), times=times), cms, reason, 'kif-parse', lambda: s)
    M.sample(s[:500])


def kif_compare(p, g, e, cms, reason, key, show):
    def ck(name, got, want):
        M.check(got == want, key + '.' + name, lambda: 'got %r want %r in\n%s' % (got, want, show()))
    ck('sfen', pos(p.sfen), pos(g.sfen))
    ck('moves', list(p.moves), g.moves)
    for k, v in e.items():
        ck(k, getattr(p, k), v)
    if cms is not None:
        ck('comments', list(p.comments) + [None] * (len(cms) - len(p.comments)), cms)
    if reason:
        eg, w = kif_expect(reason, g.turn)
        ck('endgame', p.endgame, eg)
        ck('win', p.win, w)


LAST = {}


def reopened(kind, cls, path):
    """A fresh exporter, or the one that wrote the previous record."""
    if kind in LAST and R.random() < .5:
        LAST[kind].open(path)
        M.count('export.reopened')
    else:
        LAST[kind] = cls(path) if R.random() < .7 else cls()
        if LAST[kind].kifu is None:
            LAST[kind].open(path)
    return LAST[kind]


def kif_export(g, h):
    ext = R.choice(['.kif', '.kifu'])
    path = os.path.join(TMP, 'a' + ext)
    reason = R.choice([x for x in KENDS if x not in TEXT_ONLY])
    names = [text().strip() or 'x', text().strip() or 'y']
    when = datetime(R.randrange(1980, 2030), R.randrange(1, 13), R.randrange(1, 29), R.randrange(24), R.randrange(60), R.randrange(60))
    times, infos, sums = [], [], []
    M.crumb('kif export ' + g.key())
    try:
        x = reopened('kif', KIF.Exporter, path)
        x.header(names, when, None if h == '平手' and R.random() < .5 else h)
        tot = [0, 0]
        for j, m in enumerate(g.moves):
            t = R.choice([0, 1, 59, 60, R.randrange(8000)])
            tot[j & 1] += t
            times.append(t)
            sums.append(tot[j & 1])
            x.move(m, t, tot[j & 1])
            if R.random() < .3:
                cp = R.randrange(-30000, 30000)
                mate = R.random() < .3
                sg = R.choice(['+', '-', ''])
                n = R.randrange(1, 30)
                sc = 'mate %s%d' % (sg, n) if mate else 'cp %d' % cp
                x.info('info time 1500 depth 12 nodes 34567 score %s pv 7g7f' % sc)
                black = (g.turn0 + j) % 2 == BLACK
                infos.append(' %s詰%d' % ('+' if (sg != '-') == black else '-', n) if mate else ' 評価値 %d' % (cp if black else -cp))
            else:
                infos.append(None)
        x.end(reason, 7, 9)
        times.append(7)
        x.close()
    except Exception as y:
        M.violation('kif-export-raise', '%r on %s %s' % (y, g.key(), reason))
        return
    s = open(path, encoding='utf-8' if ext == '.kifu' else 'cp932').read()
    show = lambda: s
    M.eval()
    M.count('export.' + reason)
    # independent reading of the move lines
    prev, k = None, 0
    for ln in s.split('\n'):
        m = re.match(r' *(\d+) (\S+?　?\S+) *\( *(\d+):(\d+)/(\d+):(\d+):(\d+)\)$', ln)
        if m and k < len(g.moves):
            M.check((int(m[1]), m[2], int(m[3]) * 60 + int(m[4])) == (k + 1, kif_move(g.moves[k], prev), times[k]), 'kif-export.moveline', lambda: '%s: want %s in\n%s' % (ln, kif_move(g.moves[k], prev), s))
            M.check(int(m[5]) * 3600 + int(m[6]) * 60 + int(m[7]) == sums[k] and int(m[6]) < 60 and int(m[7]) < 60, 'kif-export.total', lambda: '%s: want a total of %d s' % (ln, sums[k]))
            prev = g.moves[k]
            k += 1
    M.check(k == len(g.moves), 'kif-export.movelines', show)
    res = [ln for ln in s.split('\n') if ln.startswith('まで')]
    M.check(len(res) == 1 and re.match(r'まで、?%d手で' % len(g.moves), res[0]), 'kif-export.result', show)
    want = 'まで%d手で' % len(g.moves) + KENDS[reason][1].format(t=('先手', '後手')[g.turn], o=('後手', '先手')[g.turn])
    M.check(res == [want] and s.endswith(want + '\n'), 'kif-export.result', lambda: 'want %s in\n%s' % (want, s))
    M.check(('手合割：' + h) in s, 'kif-export.handicap', show)
    try:
        p = KIF.Parser.parse_file(path)
    except Exception as y:
        M.violation('kif-roundtrip-raise', '%r on\n%s' % (y, s))
        return
    kif_compare(p, g, dict(names=names, starttime=when, times=times), None, reason, 'kif-roundtrip', show)
    got = list(p.comments) + [None] * (len(infos) - len(p.comments))
    for a, b in zip(got, infos):
        M.check(b in a + ' ' if a and b else a == b, 'kif-export.info', lambda: 'comment %r, score %r in\n%s' % (a, b, s))


def kif_hands(r):
    """Hands as the diagrams write them."""
    h = {}
    for n, mx in (('歩', 18), ('香', 4), ('桂', 4), ('銀', 4), ('金', 4), ('角', 2), ('飛', 2)):
        k = R.choice([0, 0, 1, 1, 2, R.randrange(mx + 1)])
        if k:
            h[n] = k
    items = list(h.items())
    R.shuffle(items)
    num = ['', '', '二', '三', '四', '五', '六', '七', '八', '九', '十', '十一', '十二', '十三', '十四', '十五', '十六', '十七', '十八']
    t = '　'.join(n + num[k] for n, k in items) + R.choice(['', '　']) if h else 'なし'
    want = {dict(zip('歩香桂銀角飛金', range(1, 8)))[n]: k for n, k in h.items()}
    M.eval()
    for P in (KIF.Parser,) + ((KI2.Parser,) if hasattr(KI2.Parser, 'parse_pieces_in_hand') else ()):
        got = P.parse_pieces_in_hand(t)
        M.check(got == want, 'kif-hands', lambda: '%r read as %r' % (t, got))


def kif_setup_export(r, i):
    """A record that starts from a set-up board: the diagram, the moves, whose scores and whose win."""
    g = Game(r, i, plies=R.randrange(1, 12))
    path = os.path.join(TMP, 'b.kifu')
    M.crumb('kif export from ' + g.key())
    M.eval()
    reason = R.choice([x for x in KENDS if x not in TEXT_ONLY])
    b = Board(sfen=g.sfen)
    x = reopened('kif', KIF.Exporter, path)
    x.header(['a', 'b'], None, b if R.random() < .5 else 'sfen ' + g.sfen)
    want = []
    prev = None
    for j, m in enumerate(g.moves):
        cp = R.randrange(1, 3000)
        x.move(m, 1, j)
        x.info('info depth 3 score cp %d pv 7g7f' % cp)
        want.append(('%d %s' % (j + 1, kif_move(m, prev)), ' 評価値 %d' % (cp if (g.turn0 + j) % 2 == BLACK else -cp)))
        prev = m
    x.end(reason)
    x.close()
    s = open(path, encoding='utf-8').read()
    M.check(KIF.board_to_bod(b) in s, 'kif-setup.diagram', lambda: s)
    lines = s.split('\n')
    for mv, sc in want:
        k = [n for n, ln in enumerate(lines) if ln.strip().startswith(mv + ' ')]
        M.check(len(k) == 1 and lines[k[0] + 1].startswith('**') and (lines[k[0] + 1] + ' ').find(sc + ' ') > 0, 'kif-setup.moves', lambda: 'want %s %s in\n%s' % (mv, sc, s))
    end = 'まで%d手で' % len(g.moves) + KENDS[reason][1].format(t=('先手', '後手')[g.turn], o=('後手', '先手')[g.turn])
    M.check(lines[-2:] == [end, ''], 'kif-setup.result', lambda: 'want %s in\n%s' % (end, s))
    M.count('export.setup')


# ---------------------------------------------------------------- KI2
K2NAME = [None, '歩', '香', '桂', '銀', '角', '飛', '金', '玉', 'と', '成香', '成桂', '成銀', '馬', '龍']
K2RE = re.compile(r'([▲△])(?:([１-９])([一二三四五六七八九])|同　?)(成香|成桂|成銀|[歩香桂銀角飛金玉と馬龍])([左直右]?)([上寄引]?)(打|成|不成)?$')


def ki2_one(s, m, b, prev, legal, sfen):
    """What one KI2 move text must say about the move, whatever its style."""
    d = lambda: '%s %s -> %r' % (sfen, csa_of(m), s)
    fr, to, pro, pt, _ = fields(m)
    x = K2RE.match(s)
    if not M.check(x, 'ki2-form', d):
        return
    M.check(x[1] == '▲△'[b.turn], 'ki2-side', d)
    M.check((x[2] is None) == (prev is not None and fields(prev)[1] == to), 'ki2-same', d)
    M.check(x[2] is None or (FULL.index(x[2]), KANJI.index(x[3])) == divmod(to, 9), 'ki2-square', d)
    M.check(x[4] == K2NAME[pt], 'ki2-piece', d)
    M.check((x[7] == '成') == pro, 'ki2-promotion', d)
    if fr is None:
        M.check(not x[5] and not x[6] and x[7] in (None, '打'), 'ki2-drop', d)
        return
    M.check(x[7] != '打', 'ki2-drop', d)
    flip = (lambda q: 80 - q) if b.turn else (lambda q: q)
    ff, fk = divmod(flip(fr), 9)
    tf, tk = divmod(flip(to), 9)
    if x[6]:
        M.check({'上': fk > tk, '引': fk < tk, '寄': fk == tk}[x[6]], 'ki2-motion', d)
    if x[5] == '直':
        M.check(ff == tf and pt not in (13, 14), 'ki2-straight', d)
    others = {divmod(flip(fields(o)[0]), 9)[0] for o in legal if fields(o)[0] not in (None, fr) and fields(o)[1] == to and fields(o)[3] == pt}
    if x[5] in ('左', '右') and others:
        M.check(ff > tf or all(ff > o for o in others) if x[5] == '左' else ff < tf or all(ff < o for o in others), 'ki2-leftright', d)
    ki2_reads(x, fr, to, pt, flip, legal, d)


def ki2_reads(x, fr, to, pt, flip, legal, d):
    """A reader who knows only what the marks mean finds the one piece."""
    tf, tk = divmod(flip(to), 9)
    cand = {fields(o)[0]: divmod(flip(fields(o)[0]), 9) for o in legal if fields(o)[0] is not None and fields(o)[1] == to and fields(o)[3] == pt}
    if len(cand) < 2:
        return
    motion = lambda c: '寄上引'[(c[1] > tk) - (c[1] < tk)]

    def fits(c):
        if x[6] and motion(c) != x[6]:
            return False
        if x[5] == '直':
            return c[0] == tf
        if not x[5]:
            return True
        s = 1 if x[5] == '左' else -1
        return (c[0] - tf) * s > 0 or pt in (13, 14) and c[0] == tf and all((c[0] - o[0]) * s > 0 for o in cand.values() if o != c)
    left = [q for q, c in cand.items() if fits(c)]
    if not x[6]:            # a piece the only one to move in its direction would be told by that direction alone
        ways = [motion(c) for c in cand.values()]
        left = [q for q in left if q == fr or ways.count(motion(cand[q])) > 1]
    M.check(left == [fr] and (x[5] or x[6]), 'ki2-unreadable', d)
    M.count('ki2.read')


def ki2_walk():
    r = Ref(M.seed * 7919 + M.shard)
    for i in range(M.cases):
        if i % 3 == 0:
            crowded(r)
        else:
            start_position(r, R, i)
        b = Board(r.sfen())
        prev = None
        pol = R.randrange(7)
        for _ in range(4 if i % 3 == 0 else 14):
            sfen = r.sfen()
            legal = r.legal()
            M.crumb('ki2 ' + sfen)
            M.eval()
            M.distinct(sfen)
            seen = {}
            for m in legal:
                try:
                    s = KI2.move_to_ki2(m, b)
                except Exception as x:
                    M.violation('ki2-raise', '%r %s %s' % (x, sfen, csa_of(m)))
                    continue
                ki2_one(s, m, b, prev, legal, sfen)
                M.check(s not in seen, 'ki2-ambiguous', lambda: '%s: %s and %s are both %r' % (sfen, csa_of(m), csa_of(seen[s]), s))
                seen[s] = m
                M.count('moves')
                if any(c in s for c in '左右直上寄引打'):
                    M.count('marked')
                    if sum(c in s for c in '左右直上寄引') > 1:
                        M.count('double_mark')
            for s, m in seen.items() if len(seen) < 120 else R.sample(list(seen.items()), 120):
                b2 = b.copy()
                try:
                    got = KI2.Parser.parse_move_str(s, b2)
                except Exception as x:
                    M.violation('ki2-parse-raise', '%r: %s %r is %s' % (x, sfen, s, csa_of(m)))
                    continue
                M.check(got == [m], 'ki2-parse', lambda: '%s %r read as %s, not %s' % (sfen, s, [csa_of(q) for q in got], csa_of(m)))
                M.count('parsed')
                # KIF text of the same move
                b3 = b.copy()
                k = KIF.move_to_kif(m, prev)
                M.check(k == kif_move(m, prev), 'kif-move', lambda: '%s %s -> %r' % (sfen, csa_of(m), k))
                got = KIF.Parser.parse_move_str('   1 ' + k, b3)
                M.check(got[0] == m, 'kif-move-parse', lambda: '%s %r read as %r' % (sfen, k, got))
            m = r.pick(pol if R.random() < .6 else 0)
            if not m:
                break
            b.push(m)
            r.apply(m)
            prev = m


def crowded(r):
    """Positions in which many pieces of the same kind reach the same square."""
    for _ in range(200):
        bd = {}
        side = R.choice('bw')
        tf, tk = R.randrange(9), R.randrange(9)
        kind = R.choice(['G', 'S', '+P', '+N', '+S', '+L', 'R', 'B', '+R', '+B', 'N', 'G', 'S'])
        n = {'G': 4, 'S': 4, '+P': 8, '+N': 4, '+S': 4, '+L': 4, 'R': 2, 'B': 2, '+R': 2, '+B': 2, 'N': 2}[kind]
        near = [(tf + a, tk + c) for a in (-2, -1, 0, 1, 2) for c in (-2, -1, 0, 1, 2) if (a or c) and 0 <= tf + a < 9 and 0 <= tk + c < 9]
        if kind not in ('N', 'R', 'B', '+R', '+B'):
            near = [(a, c) for a, c in near if abs(a - tf) < 2 and abs(c - tk) < 2]
        R.shuffle(near)
        hand = {}
        for q in near[:R.randrange(2, n + 1)]:
            bd[q] = kind
        used = sum(v == kind for v in bd.values())
        tot = {'G': 4, 'S': 4, 'P': 18, 'N': 4, 'L': 4, 'R': 2, 'B': 2}[kind[-1]]
        if used < tot and R.random() < .6:
            hand[kind[-1]] = 1
        free = [(a, c) for a in range(9) for c in range(9) if (a, c) not in bd and (a, c) != (tf, tk)]
        k1, k2 = R.sample(free, 2)
        bd[k1], bd[k2] = 'K', 'k'
        if R.random() < .5:
            bd[(tf, tk)] = R.choice('pg' if kind != 'G' else 'p')
        rows = []
        for rank in range(9):
            s, e = '', 0
            for f in range(8, -1, -1):
                p = bd.get((f, rank))
                if not p:
                    e += 1
                    continue
                s += (str(e) if e else '')
                e = 0
                s += p if side == 'b' or p in 'Kk' else p.swapcase()
            rows.append(s + (str(e) if e else ''))
        hs = ''.join(k if side == 'b' else k.lower() for k in hand) or '-'
        if r.set('%s %s %s 1' % ('/'.join(rows), side, hs)) and r.valid:
            M.count('crowded')
            return
    r.start()


def ki2():
    ki2_walk()
    r = Ref(M.seed * 104729 + M.shard)
    path = os.path.join(TMP, 'a.ki2')
    ends = {'%TORYO': 'resign', '%JISHOGI': 'draw', '%KACHI': 'win', '%SENNICHITE': 'sennichite', '%+ILLEGAL_ACTION': None, '%-ILLEGAL_ACTION': None, '%ILLEGAL_MOVE': 'illegal_lose', '%CHUDAN': 'chudan'}
    for i in range(M.cases):
        g = Game(r, i, sfen=START, plies=120)
        M.distinct(g.key())
        M.eval()
        M.crumb('ki2 export ' + g.key())
        end = R.choice(list(ends))
        names = [text().strip() or 'x', text().strip() or 'y']
        when = datetime(R.randrange(1980, 2030), R.randrange(1, 13), R.randrange(1, 29), R.randrange(24), R.randrange(60), R.randrange(60))
        cms = [text(alphabet='abcXYZ019日本将棋 ') if R.random() < .2 else None for _ in g.moves]
        try:
            x = reopened('ki2', KI2.Exporter, path)
            x.header(names, when)
            for m, c in zip(g.moves, cms):
                x.move(m, c)
            x.end(end)
            x.close()
            s = open(path, encoding='cp932').read()
            show = lambda: s
            M.check(re.search(r'まで%d手で' % len(g.moves), s), 'ki2-export.result', show)
            p = KI2.Parser.parse_file(path)
        except Exception as y:
            M.violation('ki2-roundtrip-raise', '%r on %s' % (y, g.key()))
            continue
        kif_compare(p, g, dict(names=names, starttime=when, comments=cms, endgame=end, win={'%CHUDAN': None}.get(end, WIN[winner(end, g.turn)])), None, None, 'ki2-roundtrip', show)
        M.count('export.' + end)
        ki2_text(r, i)


def ki2_text(r, i):
    """A KI2 record written by an independent writer: several moves to a line, alternative piece names, handicaps."""
    h = R.choice(list(HANDI))
    g = Game(r, i, sfen=HANDI[h], plies=60)
    side = R.choice([('先手', '後手'), ('下手', '上手')])
    reason = R.choice(list(KENDS))
    b = Board(g.sfen)
    L = ['手合割：' + h, side[0] + '：A', side[1] + '：B', '*header']
    cur, cms = [], []
    for m in g.moves:
        s = KI2.move_to_ki2(m, b)
        for a, c in (('玉', '王'), ('龍', '竜')):
            if R.random() < .3:
                s = s.replace(a, c)
        b.push(m)
        cur.append(s)
        cms.append(None)
        if R.random() < .3:
            L.append(R.choice(['', '　']).join([]) + ' '.join(cur))
            cur = []
            if R.random() < .5:
                c = [text(alphabet='abc019日本 ') for _ in range(R.choice([1, 2]))]
                L += ['*' + x for x in c]
                cms[-1] = '\n'.join(c)
    if cur:
        L.append(' '.join(cur))
    L.append('まで%d手で' % len(g.moves) + KENDS[reason][1].format(t=side[g.turn], o=side[1 - g.turn]))
    s = '\n'.join(L) + '\n'
    M.eval()
    try:
        p = KI2.Parser.parse_str(s)
    except Exception as x:
        M.violation('ki2-text-raise', '%r on\n%s' % (x, s))
        return
    eg, w = kif_expect(reason, g.turn)
    kif_compare(p, g, dict(names=['A', 'B'], comments=cms, comment='header', endgame=eg, win=w), None, None, 'ki2-text', lambda: s)
    M.count('text.' + reason)


# ---------------------------------------------------------------- malformed text
def mutate(s, snippets):
    for _ in range(R.choice([1, 1, 1, 2, 3])):
        L = s.split('\n')
        k = R.randrange(10)
        i = R.randrange(len(L))
        if k == 0:
            del L[i]
        elif k == 1:
            L.insert(i, R.choice(snippets))
        elif k == 2:
            L.insert(R.randrange(len(L) + 1), R.choice(L))
        elif k == 3:
            j = R.randrange(len(L))
            L[i], L[j] = L[j], L[i]
        elif k == 4:
            L[i] = L[i][:R.randrange(len(L[i]) + 1)]
        elif k == 5:
            p = R.randrange(len(L[i]) + 1)
            L[i] = L[i][:p] + R.choice(snippets) + L[i][p:]
        elif k == 6 and L[i]:
            p = R.randrange(len(L[i]))
            L[i] = L[i][:p] + R.choice(snippets)[:2] + L[i][p + 1:]
        elif k == 7 and L[i]:
            p = R.randrange(len(L[i]))
            L[i] = L[i][:p] + L[i][p + 1:]
        elif k == 8:
            return s[:R.randrange(len(s) + 1)]
        else:
            L[i] = R.choice(snippets)
        s = '\n'.join(L)
    return s


CSA_BITS = ["'** 100", "'** x", "'** 99999999999999", "'**", 'T', 'Tx', 'T99999999999', 'T-5', '%', '%TORYO', '%KACHI', '%+ILLEGAL_ACTION', '+', '-', '+7776', '+0055FU', '+7776FU', '-0000OU', '+9999RY', '+1011FU',
            'P', 'PI', 'PI82HI22KA', 'PI8', 'PI82', 'PI82XX', 'PI00FU', 'PI99FU', 'P1', 'P1-KY', 'P+00AL', 'P-00AL', 'P+00FU', 'P+00OU', 'P+00TO', 'P+01FU', 'P+10FU', 'P+55OU', 'P+xxFU', 'P+5', 'P+55', 'P0', 'P-99ZZ',
            'P4 *  *  *  *  *  *  *  *  *', 'V', 'N', 'N+', 'N*x', '$', '$x', "'black_rate:a:b", "'black_rate:a:1e999", "'white_rate:a:", "'summary:illegal move:", "'summary:max_moves:", "'summary:", '/', '\0', '\r', '日本', ' ', 'x']
KIF_BITS = ['手合割：', '手合割：その他', '手合割：八枚', '後手の持駒：', '先手の持駒：なし', '先手の持駒：歩二　', '先手の持駒：歩百', '先手の持駒：x二', '先手の持駒：歩十八　飛', '開始日時：x', '開始日時：2020/13/45', '：', '*', '**',
            '   1 同　歩(77)', '   1 ７零歩(77)', '   1 ７六歩(00)', '   1 ７六歩(07)', '   1 ７六歩(70)', '   1 ５五と打', '   1 ５五玉打', '   1 ７六歩(77) ( :/:)', '   1 投了 ( 0:00/)', '   1 投了', '   9 中断', '   1 ９九龍成(11)',
            'まで3手で先手の勝ち', 'まで手で先手の勝ち', 'まで9手で', 'まで3手で後手の反則負け', '▲７六歩', '▲同　歩', '▲５五龍左上成', '▲７零歩', '△３四歩打', '▲７六歩 ▲７六歩', '▲', '&', '#', '\r', '打', '成', '不成', '日', '(', ')', '０', '\0']


def replay(sfen, moves, legal_only):
    """Number of moves that can be played in order from the recorded start (with the reference rules)."""
    r = replay.ref
    if not r.set(sfen):
        return -1
    n = 0
    for m in moves:
        if m not in r.legal():
            break
        r.apply(m)
        n += 1
    return n


def bad():
    r = Ref(M.seed * 7919 + M.shard)
    replay.ref = Ref(3)
    for i in range(M.cases):
        g = Game(r, i, sfen=START if R.random() < .6 else None, plies=25)
        L = ['V2.2', 'N+a', 'N-b', '$EVENT:x', "'black_rate:a:1000.0"] + csa_setup(g.sfen, R.choice(['P1', 'P+'] + (['PI'] if g.sfen == START else [])))
        for j, m in enumerate(g.moves):
            L += ['+-'[(g.turn0 + j) & 1] + csa_of(m), 'T%d' % j] + (["'** %d x" % j] if j % 3 == 0 else [])
        L += ['%TORYO', 'T1', "'summary:toryo:a win:b lose"]
        base = '\n'.join(L)
        for _ in range(12):
            bad_csa(mutate(base, CSA_BITS))
        h = R.choice(list(HANDI))
        g = Game(r, i, sfen=HANDI[h], plies=25)
        b = Board(g.sfen)
        K = ['手合割：' + h, '先手：a', '後手：b', '先手の持駒：なし', '手数----指手---------消費時間--']
        K2 = ['手合割：' + h, '先手：a', '後手：b', '']
        for j, m in enumerate(g.moves):
            K.append('%4d %s ( 0:0%d/00:00:0%d)' % (j + 1, kif_move(m, g.moves[j - 1] if j else None), j % 10, j % 10))
            if j % 4 == 0:
                K.append('*comment')
                K2.append('*comment')
            K2.append(KI2.move_to_ki2(m, b))
            b.push(m)
        tail = ['%4d 投了' % (len(g.moves) + 1), 'まで%d手で先手の勝ち' % len(g.moves)]
        for _ in range(6):
            bad_kif(KIF.Parser, mutate('\n'.join(K + tail), KIF_BITS), 'kif')
            bad_kif(KI2.Parser, mutate('\n'.join(K2 + tail[1:]), KIF_BITS), 'ki2')


def bad_csa(s):
    s = s.encode('utf-8', 'ignore').decode('utf-8')
    M.crumb('csa ' + s)
    M.eval()
    M.distinct(s)
    p = bad_csa.p if R.random() < .5 else C.Parser()
    bad_csa.p = p
    try:
        p.parse_csa_str(s)
    except (ValueError, RuntimeError, IndexError, OverflowError) as x:
        M.count('csa.rejected')
        M.count('csa.' + type(x).__name__)
        return
    except Exception as x:
        M.violation('bad-csa-exception', '%r on\n%s' % (x, s))
        return
    M.count('csa.accepted')
    d = lambda: 'on\n' + s
    mv = list(p.moves)
    M.check(len(p.scores) == len(mv), 'bad-csa-scores', d)
    M.check(len(p.times) >= len(mv), 'bad-csa-times', d)
    M.check(p.win in (C.BLACK_WIN, C.WHITE_WIN, C.DRAW), 'bad-csa-win', d)
    try:
        M.check(len(p.comments) == len(mv), 'bad-csa-comments', d)
        p.comment, p.names, p.endgame, p.version, p.ratings
        p.var_info
    except (UnicodeDecodeError, ValueError):
        M.count('csa.attr_rejected')
    if p.sfen:
        ok = replay.ref.set(p.sfen)
        if ok and p.sfen.split()[0].count('K') == p.sfen.split()[0].count('k') == 1 and replay.ref.valid:
            n = replay(p.sfen, mv, True)
            M.check(n == len(mv), 'bad-csa-illegal-move', lambda: 'move %d %s is not legal, on\n%s' % (n + 1, csa_of(mv[n]), s))
            M.count('csa.replayed')
        else:
            M.count('csa.odd_position')
        # what was read is what is written: the side before each move, and the move itself
        wr = [ln for ln in s.split('\n') if len(ln) > 1 and ln[0] in '+-']
        M.check([x[1:7] for x in wr] == [csa_of(m) for m in mv], 'bad-csa-moves-differ', lambda: 'read %s on\n%s' % ([csa_of(m) for m in mv], s))
    else:
        M.check(not mv, 'bad-csa-no-position', d)


bad_csa.p = C.Parser()


def bad_kif(P, s, kind):
    M.crumb(kind + ' ' + s)
    M.eval()
    M.distinct(kind + s)
    try:
        p = P.parse_str(s)
    except KIF.ParserException:
        M.count(kind + '.rejected')
        return
    except Exception as x:
        M.violation('bad-%s-exception' % kind, '%r on\n%s' % (x, s))
        return
    M.count(kind + '.accepted')
    n = replay(p.sfen, p.moves, False)
    d = lambda: 'on\n' + s
    M.check(n >= 0, 'bad-%s-position' % kind, d)
    M.check(p.win in (C.BLACK_WIN, C.WHITE_WIN, C.DRAW, None), 'bad-%s-win' % kind, d)
    M.check(len(p.comments) <= len(p.moves), 'bad-%s-comments' % kind, d)
    if kind == 'ki2':
        M.check(n == len(p.moves), 'bad-ki2-illegal-move', lambda: '%s on\n%s' % ([csa_of(m) for m in p.moves], s))
    else:
        M.count('kif.illegal_kept' if n < len(p.moves) else 'kif.legal')


if __name__ == '__main__':
    try:
        {'csa': csa, 'kif': kif, 'ki2': ki2, 'bad': bad}[M.mode]()
    finally:
        shutil.rmtree(TMP, ignore_errors=True)
    M.finish()
