"""Small helpers shared by the Python monitors: encoded moves and SFEN read without the code under test."""
import re
import xml.etree.ElementTree as ET

BOARD_NAMES = [None, 'FU', 'KY', 'KE', 'GI', 'KA', 'HI', 'KI', 'OU', 'TO', 'NY', 'NK', 'NG', 'UM', 'RY']
TYPES = '.PLNSBRGK'
HAND = 'PLNSGBR'


def fields(m):
    """(from or None, to, promote, piece type, captured type) of an encoded move."""
    to, fr = m & 127, (m >> 7) & 127
    if fr > 80:
        return None, to, False, fr - 80, 0
    return fr, to, bool(m >> 14 & 1), m >> 16 & 15, m >> 20 & 15


def usi_sq(s):
    return '%d%s' % (s // 9 + 1, 'abcdefghi'[s % 9])


def sq_csa(s):
    return '%d%d' % (s // 9 + 1, s % 9 + 1)


def csa_of(m):
    fr, to, pro, pt, _ = fields(m)
    return ('00' if fr is None else sq_csa(fr)) + sq_csa(to) + BOARD_NAMES[pt + 8 if pro else pt]


def ref_board_of(sfen):
    """81 piece codes by square (type, +8 promoted, +16 White), hands in the order PLNSGBR, side to move."""
    t = sfen.split(' ')
    bd = [0] * 81
    for rank, row in enumerate(t[0].split('/')):
        f = 8
        for x in re.findall(r'\d|\+?[A-Za-z]', row):
            if x.isdigit():
                f -= int(x)
                continue
            bd[f * 9 + rank] = TYPES.index(x[-1].upper()) + 8 * (x[0] == '+') + 16 * x[-1].islower()
            f -= 1
    hand = [[0] * 7, [0] * 7]
    if t[2] != '-':
        for n, x in re.findall(r'(\d*)([A-Za-z])', t[2]):
            hand[x.islower()][HAND.index(x.upper())] = int(n or 1)
    return bd, hand, 'bw'.index(t[1])


FULL = '１２３４５６７８９'
KANJI = '一二三四五六七八九'
KNAME = [None, '歩', '香', '桂', '銀', '角', '飛', '金', '玉', 'と', '杏', '圭', '全', '馬', '龍']
KALT = {'玉': '王', '龍': '竜', '全': '成銀', '圭': '成桂', '杏': '成香'}


def kif_move(m, prev, alt=False):
    fr, to, pro, pt, _ = fields(m)
    t = '同　' if prev is not None and fields(prev)[1] == to else FULL[to // 9] + KANJI[to % 9]
    n = KNAME[pt]
    if alt:
        n = KALT.get(n, n)
    return t + n + ('打' if fr is None else ('成' if pro else '') + '(%d%d)' % (fr // 9 + 1, fr % 9 + 1))


HNAME = '歩香桂銀金角飛'
NUM = {'': 1, '一': 1, '二': 2, '三': 3, '四': 4, '五': 5, '六': 6, '七': 7, '八': 8, '九': 9, '十': 10, '十一': 11, '十二': 12, '十三': 13, '十四': 14, '十五': 15, '十六': 16, '十七': 17, '十八': 18}
PIECE_ID = [None, 'pawn', 'lance', 'knight', 'silver', 'bishop', 'rook', 'gold', 'king', 'pro-pawn', 'pro-lance', 'pro-knight', 'pro-silver', 'horse', 'dragon']


GLYPHS = dict(zip(PIECE_ID, [None, ['歩'], ['香'], ['桂'], ['銀'], ['角'], ['飛'], ['金'], ['王', '玉'], ['と'], ['成香', '杏'], ['成桂', '圭'], ['成銀', '全'], ['馬'], ['龍', '竜']]))


def read_svg(s, page=False):
    """Pieces by square, hands and marked squares of a board picture; on a page, every square also carries its name."""
    root = ET.fromstring(s if '</svg>' in s else s + '</svg>')
    ns = '{http://www.w3.org/2000/svg}'
    ids = {e.get('id') for e in root.iter() if e.get('id')}
    bd, marks, texts = [0] * 81, [], [[], []]
    for e in root.iter(ns + 'g'):
        if (e.get('id') or '').split('-')[0] in ('black', 'white'):
            c, name = e.get('id').split('-', 1)
            t = ''.join(x.text for x in e.iter(ns + 'text'))
            assert t in GLYPHS[name], (e.get('id'), t)
            assert ('rotate(180)' in str(e.get('transform')) or all('rotate(180)' in str(x.get('transform')) for x in e.iter(ns + 'text'))) == (c == 'white'), e.get('id')

    def sq(e):
        f, r = 8 - (float(e.get('x')) - 20.5) / 20, (float(e.get('y')) - 10.5) / 20
        assert f == int(f) and r == int(r)
        return int(f) * 9 + int(r)
    for e in root:
        if e.tag == ns + 'use':
            h = e.get('{http://www.w3.org/1999/xlink}href')[1:]
            assert h in ids, h
            c, name = h.split('-', 1)
            bd[sq(e)] = PIECE_ID.index(name) + 16 * (c == 'white')
            assert not page or e.get('id') == usi_sq(sq(e))
        elif e.tag == ns + 'rect':
            if page and e.get('id') is not None:
                assert e.get('id') == usi_sq(sq(e))
            else:
                marks.append((e.get('fill'), sq(e)))
        elif e.tag == ns + 'text':
            texts[e.get('transform') is not None].append((-float(e.get('y')), e.text))
    hand = []
    for c in range(2):
        t = ''.join(x for _, x in sorted(texts[c], reverse=True))
        assert t[:3] == ('☗先手', '☖後手')[c], t
        h = [0] * 7
        for p, n in re.findall(r'([%s])([一二三四五六七八九十]*)' % HNAME, t[3:]):
            h[HNAME.index(p)] = NUM[n]
        hand.append(h)
    return bd, hand, marks
