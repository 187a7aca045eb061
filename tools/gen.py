#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None),
                  technique=technique, note=note))


EXPL = 'Exploration: decided on every execution the seeded workload produced; nothing is claimed about positions it did not reach. '
REFN = 'Trusts the reference model in harness/ref.hpp (rules of shogi, board geometry, published formats), written independently of the code.'

prop('C01', 'Legal move generation is exactly the rules of shogi',
     'For every legal position, the legal moves a board yields are exactly the moves the rules of shogi allow, each once: piece movement and promotion (forced and optional), '
     'pins, checks and double checks, drops, two pawns on a file, pieces without further moves and mate by a pawn drop. Pseudo-legal generation yields a superset whose legal part is the same.',
     ['inputs', 'histories'], 'every legal position, either side to move, reached by play or set up directly, with any pieces in hand',
     'Tests compare the move lists of a handful of fixed positions and a few perft-like counts; the rules interact (pins with drops, pawn-drop mate with pinned defenders, double checks) over about 10^71 positions.',
     ['src/generateMoves.cpp', 'src/position.cpp', 'src/bitboard.cpp', 'src/init.cpp', 'src/cshogi.h', 'cshogi/_cshogi.pyx'],
     [('generateMoves<Legal/LegalAll/Evasion/...>', 'src/generateMoves.cpp'), ('pseudoLegalMoveIsLegal, isPawnDropCheckMate', 'src/position.cpp'),
      ('attack tables (magic/pext, between, line)', 'src/init.cpp, src/bitboard.cpp'), ('Board.legal_moves', 'cshogi/_cshogi.pyx')],
     'differential runtime monitor against an executable rules model', EXPL + REFN)

prop('C02', 'Legality, check and mate queries agree with the rules of shogi',
     'For every legal position and every encodable move value, whether or not it makes sense there, the legality query answers yes exactly when the rules allow that move, and the pseudo-legality query agrees with the '
     'generated pseudo-legal moves. The queries about the position itself (in check, game over) agree with the rules as well.',
     ['inputs', 'histories'], 'every legal position and every encoded move, including corrupted encodings and moves legal elsewhere',
     'Tests ask about a few legal moves; the query has its own code path for every kind of piece and drop, apart from the generator, and matters for moves from files, books and network peers.',
     ['src/position.cpp', 'src/position.hpp', 'src/cshogi.h', 'cshogi/_cshogi.pyx'],
     [('moveIsPseudoLegal / moveIsLegal', 'src/position.cpp'), ('inCheck, checkers, isNoMoves', 'src/position.cpp'), ('Board.is_legal, is_pseudo_legal, is_check, is_game_over', 'cshogi/_cshogi.pyx')],
     'differential runtime monitor against an executable rules model', EXPL + REFN)

prop('C03', 'Making and unmaking moves keeps a board consistent with its history',
     'After any sequence of moves, passes, undos, copies and queries, everything observable of a board (pieces, hands, side to move, move number, checks, keys, legal moves, history) is what a board set up directly in the same '
     'position shows, and undoing restores exactly the state before. Queries change nothing, and copies and their originals do not influence each other.',
     ['histories'], 'every sequence of push (in any encoding), pass, pop, copy, swap of boards and queries from any legal position',
     'Tests push a short fixed line and pop it; state is updated incrementally in a dozen fields (bitboards, hands, keys, checkers, pinned pieces, continuous-check counters), each of which can drift on a particular move kind.',
     ['src/position.cpp', 'src/position.hpp', 'src/cshogi.h', 'cshogi/_cshogi.pyx'],
     [('doMove / undoMove', 'src/position.cpp'), ('doNullMove, pop_pass', 'src/position.cpp, src/cshogi.h'), ('__Board history and copy', 'src/cshogi.h'), ('Board.push*/pop/copy', 'cshogi/_cshogi.pyx')],
     'online monitor of the whole observable state after every operation, against a reference history and a board set up from scratch', EXPL + REFN)

prop('C04', 'Repetition verdicts match the recorded game history',
     'For every game, the repetition query answers draw, win, loss, superior or inferior exactly as the positions and checks recorded in that history (within the plies asked for) dictate, perpetual check included, and the '
     'question put before a move is made gives the verdict reached after it for draws, wins and losses. Passes, undos, copies and direct set-up neither lose nor invent repetitions.',
     ['histories'], 'every sequence of moves, passes, undos and copies from any legal position and every ply limit',
     'Tests replay one or two repetitions; the verdict depends on distances, hands and check counters over the whole history and on how it was built.',
     ['src/position.cpp', 'src/position.hpp', 'src/cshogi.h', 'cshogi/_cshogi.pyx'],
     [('isDraw, moveIsDraw', 'src/position.cpp'), ('continuousCheck, pliesFromNull', 'src/position.hpp'), ('Board.is_draw, move_is_draw', 'cshogi/_cshogi.pyx')],
     'offline checker over the recorded history of each game', EXPL + REFN + ' The four-fold rule itself is not modelled by the library: its verdict is on the first return to a position, and that is what is specified.')

prop('C05', 'Position encodings are lossless and mutually consistent',
     'For every legal position, writing it as SFEN, USI position, Huffman-coded position, packed SFEN, piece arrays or CSA board and reading it back gives the same position, and the compact codes of different positions differ. The two compact codes follow their published formats bit for bit, so files written earlier or by other programs stay readable, as do the records around them. '
     'Rotating a position twice gives it back, and the rotated position is the mirror image with the sides exchanged.',
     ['inputs'], 'every legal position with any pieces on board and in hand, either side to move',
     'Tests round-trip the initial position and a few others; the compact codes are bit-packed and only unusual material (18 pawns in hand, all promoted) fills them.',
     ['src/position.cpp', 'src/cshogi.h', 'cshogi/_cshogi.pyx', 'cshogi/__init__.py'],
     [('set/toSFEN', 'src/position.cpp'), ('toHuffmanCodedPos / set(hcp)', 'src/position.cpp'), ('toPackedSfen / set_psfen', 'src/position.cpp'), ('__rotate_sfen', 'src/cshogi.h'), ('Board.to_*/set_*', 'cshogi/_cshogi.pyx')],
     'round-trip monitor over generated positions, judged by the reference model', EXPL + REFN)

prop('C06', 'Position keys identify positions, however they were reached',
     'The hash keys of a board (position key, book key) depend only on the position: every way of reaching it (play, other move orders, undo, copies, codes, direct set-up) gives the same key, and different positions seen give '
     'different keys. The keys predicted for a move equal the keys after making it, and the book key is the one under which existing opening books file the position.',
     ['inputs', 'histories'], 'every pair of histories that reach the same or different positions',
     'Tests compare a few fixed keys; an update forgotten for one kind of move or hand piece only shows on histories that use it.',
     ['src/position.cpp', 'src/position.hpp', 'src/cshogi.h', 'src/book.cpp', 'cshogi/_cshogi.pyx'],
     [('boardKey/handKey incremental update', 'src/position.cpp doMove'), ('Book::bookKey, bookKeyAfter', 'src/book.cpp'), ('Board.zobrist_hash, book_key, *_after', 'cshogi/_cshogi.pyx')],
     'trace monitor: keys recorded against canonical positions, collisions and mismatches reported', EXPL + 'A chance collision of 64-bit keys within a run is negligible.')

prop('C07', 'Malformed positions and moves are refused without harm',
     'Any text, byte array or piece list given as a position, and any text or number given as a move, is either refused (an exception, or no move) with the board left exactly as it was, or understood as exactly what was written. '
     'A position that breaks its format, has more pieces than a set, or two kings of a side is refused; no input crashes the process, reads or writes outside its memory, or hangs.',
     ['inputs'], 'every string, every 32-byte code, every piece list and every move string or 16-bit move, on every board',
     'Tests only feed well-formed input.',
     ['src/position.cpp', 'src/cshogi.h', 'src/move.hpp', 'src/usi.cpp', 'cshogi/_cshogi.pyx'],
     [('Position::set (SFEN, hcp, psfen, pieces)', 'src/position.cpp'), ('usiToMove, csaToMove, move16toMove', 'src/cshogi.h, src/move.hpp'), ('Board.set_*', 'cshogi/_cshogi.pyx')],
     'mutation workload under AddressSanitizer/UBSan with a state-unchanged monitor and a grammar oracle', EXPL + 'Boards without both kings may be set up (tsume problems) but are not played on by the monitor.')

prop('C08', 'Short mate searches claim only true mates and find the basic ones',
     'Every mate claimed by the one-move and fixed-depth mate searches is a forced mate under the rules, its move is legal and its length within the depth asked for, and the board is left unchanged. '
     'The one-move search finds every mate given directly by an adjacent piece or a knight (and every mate when the side to move is in check); the fixed-depth searches also find every mate that rests on such one-move mates after defences that do not give check; the mate-in-n query answers yes only when every defence is mated in time.',
     ['inputs'], 'every legal position, in check or not, and every odd depth asked for',
     'Tests try some known problems; the one-move search is thousands of lines of case analysis by piece, direction, pin and shadow attack.',
     ['src/mate.cpp', 'src/position.cpp', 'src/cshogi.h', 'cshogi/_cshogi.pyx'],
     [('Position::mateMoveIn1Ply', 'src/position.cpp'), ('mateMoveInOddPlyReturnMove, mateMoveInEvenPly', 'src/mate.cpp'), ('Board.mate_move_in_1ply, mate_move, is_mate', 'cshogi/_cshogi.pyx')],
     'online checker: every claim verified by exhaustive search on the reference model', EXPL + REFN + ' Mates from a distance and discovered mates may be missed by design.')

prop('C09', 'DfPn proves only true mates, within its limits',
     'Whenever the df-pn searcher reports a mate, the reported move is legal, checks and leads to a forced mate, and the reported variation is a legal alternation of checks and evasions ending in mate; the search stays within its node limit and leaves the board unchanged. '
     'Within generous limits it finds every mate of up to five plies, and where it gives up with budget left there is no mate that the other searcher can prove; its answers do not depend on what the same searcher searched before. A search told to stop ends, and the searcher can be used again.',
     ['inputs', 'histories', 'configurations'], 'every legal position, every node, depth and draw-ply limit, every sequence of searches with one searcher',
     'The repository runs a few problems and compares answers with known solutions; the transposition table, repetition handling and limits interact over histories of searches.',
     ['src/dfpn.cpp', 'src/dfpn.h', 'src/cshogi.h', 'cshogi/_cshogi.pyx'],
     [('DfPn::dfpn_inner, TranspositionTable', 'src/dfpn.cpp'), ('get_pv, get_move', 'src/dfpn.cpp'), ('DfPn', 'cshogi/_cshogi.pyx')],
     'online checker of claims against the rules and an independent df-pn proof search', EXPL + REFN + ' Claims the independent search cannot decide within its budget are counted as inconclusive.')

prop('C10', 'OslDfPn proves only true mates, within its limits',
     'Whenever the second df-pn searcher reports a mate, the reported move is legal, checks and leads to a forced mate, and the reported variation is a legal alternation of checks and evasions ending in mate; the search respects its node budget and leaves the board unchanged. '
     'Without depth and ply limits it finds every mate of up to five plies within the budget, and where it gives up with budget left there is no mate that the other searcher can prove; its answers do not depend on what the same searcher searched before. A search told to stop ends, and the searcher can be used again.',
     ['inputs', 'histories', 'configurations'], 'every legal position, every node, depth and draw-ply limit, every sequence of searches with one searcher',
     'The repository runs a few problems and compares answers with known solutions; its proof tree, dominance table and variation extraction are only exercised there.',
     ['src/osl_dfpn.cpp', 'src/osl_dfpn.h', 'src/cshogi.h', 'cshogi/_cshogi.pyx'],
     [('OslDfPn search and table', 'src/osl_dfpn.cpp'), ('OslDfPn', 'cshogi/_cshogi.pyx')],
     'online checker of claims against the rules and an independent df-pn proof search', EXPL + REFN + ' Claims the independent search cannot decide within its budget are counted as inconclusive.')

prop('C11', 'Move encodings and rotations denote the same move',
     'For every legal move, its 32-bit, 16-bit, PSV, USI and CSA forms convert into each other and back to the same move on that board, and the accessors (from, to, promotion, drop, piece, capture) return the parts it was made of. '
     'Rotating a move twice gives it back, and the rotated move is the same move on the rotated board. The constants and names the library exports for squares, pieces, hands and results denote just those.',
     ['inputs'], 'every legal move of every legal position',
     'Tests convert a few moves; each form packs its fields differently and only particular moves use particular bits.',
     ['src/move.hpp', 'src/move.cpp', 'src/cshogi.h', 'cshogi/_cshogi.pyx'],
     [('Move fields', 'src/move.hpp'), ('__move_to_usi/csa, __move16_*_psv, rotate', 'src/cshogi.h'), ('move_* functions', 'cshogi/_cshogi.pyx')],
     'round-trip monitor over all legal moves of generated positions', EXPL + REFN)

prop('C12', 'Neural network inputs and move labels describe the position',
     'For every legal position, each element of the piece-plane, hand, check and declaration inputs made for the networks has the value that the position dictates from the view of the side to move, whatever the arrays held before. '
     'Every legal move has the output label that the network format gives it, in range, no two legal moves of a position share a label, and a move and its rotation have the same label.',
     ['inputs'], 'every legal position, both sides to move, both network families, and every legal move',
     'Tests compare a few planes of fixed positions.',
     ['src/cshogi.h', 'cshogi/_cshogi.pyx', 'cshogi/dlshogi/__init__.py'],
     [('make_input_features, move label', 'src/cshogi.h'), ('dlshogi / piece_planes functions', 'cshogi/_cshogi.pyx')],
     'differential monitor of every plane element against the reference model', EXPL + REFN)

prop('C13', 'The entering-king declaration is judged by the 27-point rule',
     'A declaration win is reported exactly when the side to move satisfies every condition: king in the promotion zone, at least ten further own pieces there, at least 28 points (Black) or 27 (White) counting zone and hand '
     'with major pieces five, and not in check.',
     ['inputs'], 'every legal position around each threshold',
     'Tests look at one or two positions; five thresholds interact.',
     ['src/position.cpp', 'src/cshogi.h', 'cshogi/_cshogi.pyx'],
     [('nyugyoku', 'src/position.cpp'), ('Board.is_nyugyoku', 'cshogi/_cshogi.pyx')],
     'differential monitor against an executable declaration rule', EXPL + REFN)

prop('C20', 'Independent boards and searchers can be used from several threads',
     'Threads working on boards, searchers and record parsers of their own (or copying one board that none of them changes) do not race and obtain exactly the results they obtain alone.',
     ['schedules'], 'every interleaving of threads each using objects of its own',
     'No test uses threads with the native code.',
     ['src/cshogi.h', 'src/position.cpp', 'src/init.cpp', 'src/generateMoves.cpp', 'src/mate.cpp', 'src/dfpn.cpp', 'src/osl_dfpn.cpp', 'src/parser.h'],
     [('tables are written at start-up only', 'src/init.cpp'), ('searcher-owned transposition tables', 'src/dfpn.cpp, src/osl_dfpn.cpp')],
     'ThreadSanitizer plus result comparison with a single-threaded run', 'Exploration of the schedules the stress produced; ThreadSanitizer reports races between accesses that happened, whatever their order.')

prop('C21', 'Valid use of the library never touches memory it does not own',
     'No sequence of valid operations on boards, moves, encodings, features, mate searches and df-pn searches reads or writes outside allocated memory, uses freed memory, or executes undefined shifts, index overruns or signed overflow.',
     ['inputs', 'histories'], 'every legal position and every sequence of documented operations on it',
     'Tests run without sanitizers and on ordinary positions: fixed-size move buffers, tables and node pools overflow only on extreme ones.',
     ['src'], [('fixed-size move lists', 'src/generateMoves.hpp, src/mate.cpp, src/dfpn.cpp'), ('attack tables', 'src/init.cpp'), ('state stack', 'src/cshogi.h')],
     'AddressSanitizer and UndefinedBehaviorSanitizer under the workloads of all other monitors', 'Exploration: every memory access of the executions run is checked; uninitialised reads are not instrumented.')

exec(open(os.path.join(V, 'tools', 'more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more.py')) else None

P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}, ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'lib\'); import build, props"',
         checks=[dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'], thorough_cmd='python3 run.py %s --thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note']) for p in P],
         not_applicable=[], notes='No hooks in /repo: everything is observed through the public C++ and Python interfaces of freshly built code. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(P), 'properties')
