"""What each check runs.  cases = (quick, thorough), per shard."""
import os
CRITICAL = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'critical.txt')
REF = 'The reference model (harness/ref.hpp), written from the rules of shogi and the published formats, is trusted.'
EXPL = 'Only the executions produced by the seeded workload are judged.'
WALK = ('Seeded games (random, capture-seeking, check-seeking, king-marching) from the initial position, hand-made hard positions and randomly '
        'composed legal positions (up to all 18 pawns in hand, up to 593 legal moves); ')


def cpp(mode, quick, thorough, harness='core', variant='plain', name=None, **kw):
    return dict(name=name or 'cpp_' + mode, kind='cpp', variant=variant, harness=harness, mode=mode, cases=(quick, thorough), **kw)


def py(mode, quick, thorough, script='core.py', variant='plain', name=None, **kw):
    return dict(name=name or 'py_' + mode, kind='py', variant=variant, script=script, mode=mode, cases=(quick, thorough), **kw)


PROPS = {
    'C01': dict(
        rule=WALK + 'at every position reached, the generated legal moves are compared as a set with the reference model; non-trivial: a distinct position.',
        assumptions=[REF, EXPL],
        jobs=[cpp('movegen', 4000, 200000, must_see=['pos.check', 'pos.doublecheck', 'mv.pawndropcheck', 'pos.nomoves']),
              py('movegen', 60, 3000)]),
    'C02': dict(
        rule=WALK + 'at every position, every one of the encodable moves (all from/to/promotion/drop combinations and corrupted bits) is put to the legality and '
             'pseudo-legality queries, and check/gives-check/mate queries, and compared with the reference model; non-trivial: a distinct position.',
        assumptions=[REF, EXPL],
        jobs=[cpp('legality', 200, 15000, must_see=['accepted', 'rejected']),
              py('legality', 60, 3000, must_see=['mutants'])]),
    'C03': dict(
        rule='Random histories of push / push in other encodings / pass / pop / copy / swap / query; after every step the full observable state is compared with '
             'the reference history and with a board set up from scratch from its SFEN; non-trivial: a distinct history.',
        assumptions=[REF, EXPL],
        jobs=[cpp('state', 500, 30000, must_see=['op.pop_pass', 'op.copy.unwind', 'op.push.promo', 'op.push.drop']),
              py('state', 120, 6000, must_see=['push4', 'pass', 'copy', 'pop', 'turn_set'])]),
    'C04': dict(
        rule='Shuffling games that return to earlier positions (with perpetual checks, material hand changes, passes, pops and copies); every verdict is compared '
             'with a verdict recomputed from the full recorded history; non-trivial: a distinct history.',
        assumptions=[REF, EXPL],
        jobs=[cpp('repetition', 3000, 200000, must_see=['is_draw.draw', 'is_draw.win', 'is_draw.lose', 'is_draw.inferior', 'move_is_draw.win', 'move_is_draw.lose']),
              py('repetition', 120, 6000, must_see=['verdict.1', 'verdict.2', 'verdict.3'])]),
    'C05': dict(
        rule=WALK + 'each position goes through SFEN, USI position, HuffmanCodedPos, PackedSfen, piece arrays and rotation and must come back identical, '
             'distinct positions must have distinct codes, and the compact codes must be those of an independent encoder; non-trivial: a distinct position.',
        assumptions=[REF, EXPL],
        jobs=[cpp('codec', 3000, 200000, must_see=['codec.full', 'max:pawns_in_hand']), py('codec', 100, 5000, must_see=['layouts'])]),
    'C06': dict(
        rule=WALK + 'every key is compared with the key of the same position reached another way (set up from SFEN, other move order, copy, pass, code round trip), '
             'predicted keys of moves are compared with the keys after the moves, and different positions seen in the run must have different keys, and the book key must be that of an independent computation; non-trivial: a distinct position.',
        assumptions=[EXPL, 'Two different positions colliding on a 64-bit key by chance within one run has probability below 1e-9.'],
        jobs=[cpp('keys', 2500, 150000, must_see=['commuted', 'transpositions']), py('keys', 100, 5000)]),
    'C08': dict(
        rule='Composed positions around a threatened king and positions of seeded games; every mate claimed is checked by exhaustive search with the reference model, '
             'one-move mates by an adjacent piece or a knight must be found, and so must the fixed-depth mates that rest on them alone; non-trivial: a distinct position in which a mate was claimed.',
        assumptions=[REF, EXPL, 'Mates given from a distance and discovered mates may be missed by design.'],
        jobs=[cpp('mate1', 60000, 3000000, harness='mate', must_see=['claims.contact', 'incheck']),
              cpp('mateN', 1800, 200000, harness='mate', must_see=['claims.3', 'claims.5', 'claims.7', 'with_history', 'is_mate.yes']),
              cpp('mateN', 500, 30000, harness='mate', name='cpp_mateN_critical', arg=CRITICAL, must_see=['critical.A1', 'critical.A3', 'critical.A5', 'critical.D1', 'critical.D3', 'critical.D5']),
              cpp('mate1', 1000, 60000, harness='mate', name='cpp_mate1_critical', arg=CRITICAL, must_see=['critical.A1', 'critical.D1']),
              py('mate', 120, 5000, must_see=['mate1', 'mate3', 'is_mate', 'ply_refused'])]),
    'C11': dict(
        rule=WALK + 'every legal move is encoded and decoded in every encoding (32-bit, 16-bit, PSV, USI, CSA) and rotated; non-trivial: a distinct position.',
        assumptions=[REF, EXPL],
        jobs=[cpp('moves', 2000, 100000, must_see=['moves']), py('moves', 80, 4000, must_see=['constants'])]),
    'C12': dict(
        rule=WALK + 'feature planes are compared element by element with planes computed from the position by the reference, for both sides to move, and the output '
             'labels of all legal moves must be in range and distinct; non-trivial: a distinct position.',
        assumptions=[REF, EXPL],
        jobs=[cpp('features', 2000, 100000, must_see=['planes', 'labels', 'nyugyoku.king_in_zone']), py('features', 80, 4000)]),
    'C13': dict(
        rule='Composed positions around each declaration threshold (piece count, points, check, king rank, both sides); non-trivial: a distinct position.',
        assumptions=[REF, EXPL],
        jobs=[cpp('nyugyoku', 60000, 3000000, must_see=['declare.yes', 'points.exact', 'pieces.exact', 'only.too_few_points', 'only.too_few_pieces']),
              py('nyugyoku', 3000, 100000, must_see=['declare.True', 'declare.False'])]),
    'C07': dict(
        rule='SFEN strings, USI positions, 32-byte position codes, piece arrays and move strings are mutated (insertions, deletions, duplicated spans, flipped bits, wrong '
             'lengths, non-ASCII) and put to every way of reading them, with AddressSanitizer watching; non-trivial: a distinct malformed or borderline input.',
        assumptions=[EXPL, 'The SFEN grammar of the monitor (py/fuzz.py) is trusted; the initial position stands for the empty string.',
                     'Boards without both kings may be set up but are not played on.'],
        jobs=[py('all', 260, 20000, script='fuzz.py', variant='asan', name='py_fuzz_asan', must_see=['set_sfen.rejected', 'set_position.rejected', 'set_hcp.rejected', 'set_psfen.rejected', 'set_pieces.rejected', 'follow']),
              py('all', 900, 60000, script='fuzz.py', name='py_fuzz')]),
    'C09': dict(
        rule='Composed mate problems and positions of seeded games under random depth, node and draw-ply limits, with one searcher reused over many positions; every mate '
             'claimed is checked move by move against the reference rules and by an independent proof search; endless searches are told to stop from another thread; non-trivial: a distinct position searched.',
        assumptions=[REF, EXPL, 'A claim whose independent proof search runs out of its budget is counted as inconclusive and its principal variation alone is checked.'],
        jobs=[cpp('dfpn', 180, 12000, harness='mate', must_see=['claims', 'confirmed', 'denied', 'denied.agreed', 'reused', 'with_history', 'none.no_short_mate']),
              cpp('dfpn', 500, 30000, harness='mate', name='cpp_dfpn_critical', arg=CRITICAL, must_see=['critical.A1', 'critical.A3', 'critical.A5', 'critical.D1', 'critical.D3', 'critical.D5']),
              cpp('stop', 25, 2000, harness='mate', must_see=['stopped']),
              py('dfpn', 40, 2000, script='search.py', must_see=['claims', 'confirmed'])]),
    'C10': dict(
        rule='As C09, for the second searcher.',
        assumptions=[REF, EXPL, 'A claim whose independent proof search runs out of its budget is counted as inconclusive and its principal variation alone is checked.'],
        jobs=[cpp('osl', 180, 12000, harness='mate', must_see=['claims', 'confirmed', 'denied', 'denied.agreed', 'reused', 'with_history', 'none.no_short_mate']),
              cpp('osl', 350, 30000, harness='mate', name='cpp_osl_critical', arg=CRITICAL, must_see=['critical.A1', 'critical.A3', 'critical.A5', 'critical.D1', 'critical.D3', 'critical.D5']),
              cpp('oslstop', 25, 2000, harness='mate', must_see=['stopped']),
              py('osl', 40, 2000, script='search.py', must_see=['claims', 'confirmed'])]),
    'C20': dict(
        rule='Rounds of 24 tasks (games, mate searches, both df-pn searchers, record parsing, copies of one shared board) run by 6 threads in different orders under '
             'ThreadSanitizer, each result compared with the same task run alone; non-trivial: a distinct task.',
        assumptions=[EXPL, 'Threads that share one mutable board or searcher are outside the property.'],
        jobs=[cpp('threads', 6, 400, harness='threads', variant='tsan', shards=2, must_see=['rounds', 'task.kind4', 'task.kind5', 'task.kind6'])]),
    'C21': dict(
        rule='The workloads of the behavioural monitors run with AddressSanitizer and the undefined-behaviour checks (bounds, shifts, overflow, null, unreachable, bool); '
             'non-trivial: a distinct position or history.',
        assumptions=[EXPL, 'Uninitialised reads are not instrumented; they are seen only where they change a result the behavioural monitors compare.'],
        jobs=[cpp(m, q, t, harness=h, variant='asan', name='asan_' + m) for m, q, t, h in (
            ('movegen', 300, 20000, 'core'), ('legality', 12, 1000, 'core'), ('state', 40, 4000, 'core'), ('repetition', 300, 20000, 'core'),
            ('codec', 300, 20000, 'core'), ('keys', 250, 20000, 'core'), ('moves', 120, 10000, 'core'), ('features', 120, 10000, 'core'),
            ('nyugyoku', 4000, 300000, 'core'), ('mate1', 3000, 300000, 'mate'), ('mateN', 120, 10000, 'mate'), ('dfpn', 12, 1000, 'mate'), ('osl', 12, 1000, 'mate'), ('wide', 25, 2000, 'mate'))]),
    'C14': dict(
        rule='Seeded games from the initial position, hand-made and random set-ups are written as CSA text by an independent writer (every set-up style, times, scores, comments, '
             'ratings, every ending) and by the exporter, read by the parser and by an independent reader, and compared field by field; non-trivial: a distinct game.',
        assumptions=[REF, EXPL, 'The independent CSA writer and reader of py/records.py are trusted.'],
        jobs=[py('csa', 350, 15000, script='records.py', must_see=['setup.PI', 'setup.P1', 'setup.P+', 'export.str', 'export.board', 'export.none', 'export.sepcomma', 'summary', 'end.%KACHI'])]),
    'C15': dict(
        rule='Seeded games from every named handicap are written as KIF text by an independent writer and by the exporter, read back and compared field by field; non-trivial: a distinct game.',
        assumptions=[REF, EXPL, 'The independent KIF writer of py/records.py is trusted.', 'Start positions given as a board diagram are outside the property: the parser does not read diagrams.'],
        jobs=[py('kif', 350, 15000, script='records.py', must_see=['export.win', 'export.draw', 'export.illegal_win', 'export.illegal_lose', 'end.chudan', 'export.reopened', 'export.setup', 'end.mated', 'end.timeup', 'handicap.十枚落ち'])]),
    'C16': dict(
        rule='At every position of seeded games and of composed positions in which several like pieces reach one square, the KI2 text of every legal move must be truthful, unique and read '
             'back as the same move; whole games go through the exporter and an independent writer; non-trivial: a distinct position or game.',
        assumptions=[REF, EXPL],
        jobs=[py('ki2', 220, 9000, script='records.py', must_see=['marked', 'double_mark', 'crowded', 'parsed', 'export.reopened', 'export.%ILLEGAL_MOVE', 'text.illegal_win'])]),
    'C17': dict(
        rule='Valid CSA, KIF and KI2 records are mutated (lines and characters dropped, duplicated, swapped, truncated, replaced by hostile fragments) and parsed, with AddressSanitizer watching; '
             'non-trivial: a distinct malformed record.',
        assumptions=[REF, EXPL, 'KIF keeps an illegal move it can read in the move list (as the last move of a lost game); only its other moves are replayed.'],
        jobs=[py('bad', 250, 12000, script='records.py', variant='asan', name='py_bad_asan', must_see=['csa.rejected', 'csa.replayed', 'kif.rejected', 'ki2.rejected', 'ki2.accepted']),
              py('bad', 900, 40000, script='records.py', name='py_bad')]),
    'C18': dict(
        rule='Random sequences of driver calls against a scripted engine that records what it receives, answers with torn, huge and noisy output, writes to its standard error, and dies or closes its '
             'output at any point; info lines in random shapes are put to the listeners; non-trivial: a distinct sequence of calls and answers.',
        assumptions=[EXPL, 'The scripted engine (py/fake_engine.py) is trusted. A call that has not returned after 60 s is counted as hung.', 'Engine output is ASCII.'],
        jobs=[py('engine', 400, 8000, script='engine.py', name='py_usi', must_see=['fail.die_mid', 'fail.die_torn', 'fail.close', 'huge_output', 'torn_lines', 'stderr', 'call.go+stop', 'call.go_mate', 'error.EOFError', 'quit', 'delivered.setoption', 'delivered.stop', 'delivered.position']),
              py('info', 3000, 100000, script='engine.py', must_see=['score.mate', 'score.cp', 'score.none', 'multi.3'])]),
    'C19': dict(
        rule='Matches between two scripted engines whose games and endings (resignation, declaration, illegal move, mate, repetition, perpetual check by either side, move limit, time, resignation threshold, '
             'mate score) are planned with the reference model, under random options; every line sent to each engine, every record written and every tally is compared with the plan; non-trivial: a distinct game.',
        assumptions=[REF, EXPL, 'A match whose host stalled for more than 0.6 s in time trouble is not judged.', 'Repetitions that are perpetual check only since the previous occurrence, and repetitions or mates '
                     'announced on the very last move allowed, are not judged.'],
        jobs=[py('match', 40, 1500, script='engine.py', timeout=400, must_see=['end.resign', 'end.declare', 'end.illegal', 'end.mate', 'end.repetition', 'end.perpetual', 'end.max', 'end.threshold', 'end.mate_win', 'end.time',
                                                                 'perpetual.checker_moved', 'perpetual.evader_moved', 'ponder.right', 'ponder.wrong', 'csa.games', 'pgn.games', 'clock', 'clock.ponderhit', 'openings', 'rotation', 'command_line', 'displayed', 'debugged']),
              py('league', 4, 150, script='engine.py', timeout=400, must_see=['league', 'league.rounds', 'league.openings', 'clock', 'csa.games', 'pgn.games']),
              py('elo', 20000, 500000, script='engine.py')]),
    'C22': dict(
        rule=WALK + 'with passes in between; at each position every rendering is read back independently and compared with the position; non-trivial: a distinct position.',
        assumptions=[REF, EXPL],
        jobs=[py('render', 350, 15000, script='render.py', must_see=['bod.same', 'bod.last', 'svg.lastmove', 'pass', 'kif.diagram', 'pgn.files'])]),
    'C23': dict(
        rule='Games played through the environments (single and vectorised), steered into mates, repetitions and perpetual checks, with resignations and refused illegal moves; non-trivial: a distinct game.',
        assumptions=[REF, EXPL, 'Repetitions that are perpetual check only since the previous occurrence are not judged.'],
        jobs=[py('gym', 500, 15000, script='render.py', gym=True, must_see=['mate', 'rep.0', 'rep.1', 'rep.-1', 'vec.reset', 'illegal', 'reset.hcp', 'rendered'])]),
    'C24': dict(
        rule='Matches between scripted engines and CSA records replayed, through the functions behind the web pages and the page itself; non-trivial: a distinct game.',
        assumptions=[REF, EXPL, 'Games from the initial position only: the page has no other.'],
        jobs=[py('web', 160, 6000, script='engine.py', timeout=400, must_see=['web.match', 'web.replay', 'web.csa', 'web.end.perpetual', 'web.end.repetition', 'web.end.illegal', 'web.served', 'web.time', 'clock', 'replay.odd_line'])]),
    'C25': dict(
        rule='Random games replayed from CSA records, and games of a human against a scripted engine or another human played through the requests of the page; the page itself (board.js and the script of board.html) runs in Node.js '
             'with a stand-in for the browser, rows are selected in random ways and moves made with the mouse; non-trivial: a distinct game.',
        assumptions=[REF, EXPL, 'The stand-in for jQuery and the browser (py/page.js) is trusted; layout and styling are not judged.', 'Games from the initial position only: the page has no other.',
                     'Names and texts without backslashes or markup.'],
        jobs=[py('page', 40, 1500, script='engine.py', timeout=500, must_see=['page.replay', 'page.click.asks', 'page.click.promotes', 'page.refused', 'page.human.max', 'page.eleven'])]),
}
