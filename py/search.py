"""The df-pn searchers through the Python API: every claim checked against the reference model."""
import cshogi as C
from cshogi import Board, DfPn, OslDfPn
from mon import Mon
from refm import Ref

M = Mon()
R = M.rng
OSL = M.mode == 'osl'
S = OslDfPn if OSL else DfPn


def check_pv(r, pv, ctx):
    n = 0
    ok = len(pv) % 2 == 1
    for i, m in enumerate(pv):
        if m not in r.legal():
            ok = False
            break
        r.apply(m)
        n += 1
        if i % 2 == 0 and not r.incheck:
            ok = False
            break
    ok = ok and r.ismate
    for _ in range(n):
        r.undo()
    M.check(ok, 'pv-no-mate', lambda: '%s pv %s' % (ctx, ' '.join(C.move_to_usi(m) for m in pv)))


def one(r, s, lim, depth, draw, ctx):
    b = Board(r.sfen())
    # some searches start from a board that has been played on
    played = 0
    if R.random() < .4:
        for _ in range(2 * R.randrange(1, 4)):
            m = r.pick(R.randrange(7))
            if not m:
                break
            r.apply(m)
            b.push(m)
            played += 1
        ctx += ' after %d moves: %s' % (played, r.sfen())
        M.count('played_on')
    before = (b.sfen(), b.zobrist_hash(), tuple(b.history))
    M.crumb('search ' + ctx)
    M.eval()
    got = s.search(b)
    M.distinct(b.sfen())
    M.check((b.sfen(), b.zobrist_hash(), tuple(b.history)) == before, 'search-disturbs', ctx)
    n = s.searched_node
    M.check(n <= (4 * lim + 1000 if OSL else lim + 1), 'node-limit', lambda: '%s searched %d' % (ctx, n))
    if got:
        M.count('claims')
        m = s.get_move(b)
        if not M.check(m in r.legal(), 'move-illegal', lambda: '%s %s' % (ctx, C.move_to_usi(m))):
            return
        pv = list(s.get_pv(b))
        check_pv(r, pv, ctx)
        M.maxi('pv', len(pv))
        M.check((b.sfen(), b.zobrist_hash(), tuple(b.history)) == before, 'query-disturbs', ctx)
        r.apply(m)
        M.check(r.incheck, 'move-no-check', lambda: '%s %s' % (ctx, C.move_to_usi(m)))
        w = r.dfpn(False, 60)
        M.check(w != 0, 'unsound', lambda: '%s %s' % (ctx, C.move_to_usi(m)))
        M.count('confirmed' if w > 0 else 'inconclusive')
        if len(M.samples) < 2:
            M.sample('%s mates %s' % (ctx, ' '.join(C.move_to_usi(x) for x in pv)))
        # the same question from the defender's side
        b.push(m)
        if R.random() < .3:
            t = S(nodes=20000)
            ga = t.search_andnode(b)
            if ga:
                M.count('and.claims')
                M.check(r.dfpn(False, 60) != 0, 'and-unsound', ctx)
            elif t.searched_node * (2 if OSL else 1) < 20000:
                M.check(not (r.mate_and(2) == 1), 'and-missed', ctx)
        b.pop()
        r.undo()
    elif not played:
        k = next((k for k in (1, 3) if r.mate_or(k, 30000) == 1), 0)
        if k and k <= depth and draw - b.move_number > k and n * (2 if OSL else 1) < lim and not (OSL and (depth < 1600 or draw < 2000000000)):
            M.violation('missed', '%s mate in %d, searched %d' % (ctx, k, n))
        M.count('none')


r = Ref(M.seed * 1000 + M.shard)
s = None
for i in range(M.cases):
    r.mateish() if R.random() < .85 else r.random(R.random() < .5)
    lim = R.choice((50, 1000, 10000, 10000))
    depth = 1600 if R.random() < .7 else R.choice((1, 3, 5, 7, 9))
    draw = 2147483646 if R.random() < .8 else int(r.sfen().split()[3]) + R.randrange(8)
    if s is None or R.random() < .3:
        s = S(depth=depth, nodes=lim, draw_ply=draw)
    else:
        s.set_max_depth(depth)
        s.set_max_search_node(lim)
        s.set_draw_ply(draw)
        M.count('reused')
        if R.random() < .1:
            s.stop(True)
            s.stop(False)
    one(r, s, lim, depth, draw, '%s nodes %d depth %d draw_ply %d' % (r.sfen(), lim, depth, draw))
M.finish()
