RECT = 'Trusts the independent writers and readers in py/records.py and the reference model for replaying moves.'

prop('C14', 'A game written as a CSA record reads back as the same game',
     'For every game, the CSA text of it, whether written by CSA.Exporter or by any writer following the CSA format, is read by the parser as the same start position and side to move, the same moves, the times, '
     'scores and comments of each move, player names, ratings, header information, ending and winner. This holds for every start position (PI, PI with pieces removed, P1 to P9, P+/P- lists, pieces in hand, either side to move), '
     'given to the exporter as nothing, an SFEN string or a board; for times and comments on their own line or on the move\'s; for several games in one file; and for a parser that has read another record before.',
     ['inputs', 'histories'], 'every start position, sequence of legal moves, time, comment, ending, and order of records read by one parser',
     'Tests read two fixed positions and two endings and never export; the combinations of set-up style, side to move, ending and separators are unbounded.',
     ['src/parser.h', 'cshogi/CSA.py', 'cshogi/_cshogi.pyx', 'src/usi.cpp', 'src/position.cpp'],
     [('parse_csa, parse_position, to_sfen', 'src/parser.h'), ('Exporter.info/move/endgame', 'cshogi/CSA.py'), ('Parser', 'cshogi/_cshogi.pyx'), ('Board.csa_pos', 'src/position.cpp'), ('csaToMove, Move::toCSA', 'src/usi.cpp, src/move.cpp')],
     'round-trip monitor with an independent writer and reader', EXPL + RECT)

prop('C15', 'A game written as a KIF record reads back as the same game',
     'For every game from the even position or any named handicap, the KIF text of it, whether written by KIF.Exporter or by any writer following the format, is read by the parser as the same start position, moves, '
     'times, player names, start time, comments of each move, ending and winner, for every ending the exporter knows (resignation, entering-king win, impasse, repetition, foul by either side) and interruption; '
     'the result line names the right side and move count, and score comments are from Black\'s point of view.',
     ['inputs', 'histories'], 'every named handicap, sequence of legal moves, times, comments and ending',
     'No test reads or writes KIF; the reading of 同, drops, promotions, alternative piece names and who moves first depends on the whole game.',
     ['cshogi/KIF.py'], [('Parser.parse_str, parse_move_str', 'cshogi/KIF.py'), ('Exporter.header/move/end/info, move_to_kif', 'cshogi/KIF.py'), ('HANDYCAP_SFENS', 'cshogi/KIF.py')],
     'round-trip monitor with an independent writer and reader', EXPL + RECT + ' Start positions given as a board diagram are not read back by the parser and are left out.')

prop('C16', 'KI2 notation names every legal move truthfully, uniquely and readably',
     'For every position and every legal move, the KI2 text of the move states the right side, destination (同 exactly after a move to the same square), piece, promotion and drop; its position and motion marks are true of the move from the '
     'mover\'s point of view; no two legal moves of a position share a text, and a reader who knows only what the marks mean is left with one piece; and the parser reads the text back as that move. Whole games written by KI2.Exporter or by hand (several moves to a line, handicaps, alternative piece names) '
     'read back with the same moves, comments, names, ending and winner.',
     ['inputs', 'histories'], 'every position, in particular those where several like pieces reach one square, and every legal move and game',
     'The tests compare the text of about thirty fixed moves and never read it back; the marks depend on every other piece of the same kind, on pins and on pieces in hand.',
     ['cshogi/KI2.py', 'cshogi/KIF.py'], [('move_to_ki2', 'cshogi/KI2.py'), ('Parser.parse_move_str, parse_str', 'cshogi/KI2.py'), ('Exporter', 'cshogi/KI2.py')],
     'round-trip and uniqueness monitor over all legal moves', EXPL + RECT)

prop('C17', 'Malformed game records are refused, never misread or unsafe',
     'For every text given to the CSA, KIF and KI2 parsers, parsing ends with a result or an ordinary exception (ParserException for KIF and KI2) and without an invalid memory access. If a CSA record is accepted, its moves are exactly the moves '
     'written and all legal in sequence from the start position read, and its times, scores and comments match its moves; if a KI2 record is accepted, its moves are all legal in sequence. A parser used again afterwards is not affected.',
     ['inputs', 'histories'], 'every text, and every order of good and bad records read by one parser',
     'No test parses a malformed record; records come from files and servers outside the user\'s control.',
     ['src/parser.h', 'cshogi/KIF.py', 'cshogi/KI2.py', 'cshogi/_cshogi.pyx'],
     [('parse_csa, parse_position', 'src/parser.h'), ('Parser.parse_str', 'cshogi/KIF.py, cshogi/KI2.py')],
     'mutation workload under AddressSanitizer with a replaying monitor', EXPL + RECT)

prop('C18', 'The USI driver sends exactly the commands asked and returns the engine\'s answers',
     'For every sequence of calls on cshogi.usi.Engine and every behaviour of the engine process: each call sends exactly one command line with the arguments given, in order, without waiting for a later call; a call that waits returns exactly what the engine '
     'answered (best move and ponder move, mate answer, usi lines) however its output is split, delayed, padded with other lines or ended by CR LF, and however much it writes to standard output or standard error; stop from another thread ends a search; the listener hears '
     'the command and every line in order; if the engine dies or closes its output the waiting call and later ones raise EOFError or OSError promptly instead of hanging or answering; quit returns with the process reaped. InfoListener and MultiPVListener report the '
     'last info line for the best move (each multipv) with its fields, score, mate sign and pv.',
     ['schedules', 'crash_points', 'inputs'], 'every sequence of calls, every division of the output into writes, every point at which the engine dies, every info line',
     'No test starts an engine; behaviour depends on process timing, buffering and failure.',
     ['cshogi/usi/Engine.py'], [('Engine', 'cshogi/usi/Engine.py'), ('InfoListener, MultiPVListener', 'cshogi/usi/Engine.py')],
     'scripted peer with fault injection and an event-log checker', EXPL + 'Trusts the scripted engine (py/fake_engine.py).')

prop('C19', 'Engine matches are played, adjudicated, timed, tallied and recorded correctly',
     'For every pair of engines and options, cshogi.cli.main plays each game by the rules: each engine is asked to move exactly in its turn and is sent exactly the moves played so far, the time left after each side\'s thinking time and increments, and a well-formed '
     'sequence of commands; the game ends exactly when it should (resignation, declaration, illegal move, mate, fourth repetition, perpetual check lost by the checking side, move limit, time, resignation threshold, announced mate) with the right winner; '
     'colours swap (or do not) as asked, openings and the callback\'s stop are obeyed, pondering changes nothing in the result and never hangs the match; the tallies returned, given to the callback and printed, the CSA and PGN records (moves, thinking times in whole seconds, scores and lines announced, endings), the positions displayed and the Elo statistics agree with the games played. '
     'The command (python -m cshogi.cli) does the same with the options it is given, and plays leagues of three engines in which every pair plays two games a round with the colours swapped, from the same opening.',
     ['histories', 'schedules', 'inputs'], 'every course of every game of a match, every option, every prediction of a pondering engine',
     'No test runs a match; adjudication depends on the whole game and on engine timing.',
     ['cshogi/cli.py', 'cshogi/usi/Engine.py', 'cshogi/PGN.py', 'cshogi/CSA.py', 'cshogi/elo.py'],
     [('main', 'cshogi/cli.py'), ('usi_info_to_score, usi_info_to_csa_comment', 'cshogi/cli.py'), ('Exporter', 'cshogi/PGN.py, cshogi/CSA.py'), ('Elo', 'cshogi/elo.py')],
     'scripted peers with planned games and offline checking of the event logs', EXPL + RECT)

prop('C22', 'Diagrams, pictures and texts of a board show exactly its position',
     'For every position and history, passes included: the BOD diagram (Board.to_bod, KIF.board_to_bod, the header of a KIF file), the SVG picture, and the text of a board show every piece on its square with its side and promotion, every piece in hand with its count, '
     'the side to move, and the last move (number, side, square, 同 exactly for a recapture, piece, promotion; highlighted squares); PGN move texts name the move played and differ between the legal moves of a position, and a PGN file holds the tags, moves and results given; and showing a board does not change it.',
     ['inputs', 'histories'], 'every position and last move', 'Tests compare a few fixed diagrams; nothing checks the picture, hands of ten or more, passes or that the board is left as it was.',
     ['cshogi/_cshogi.pyx', 'cshogi/KIF.py', 'cshogi/PGN.py', 'src/position.cpp'],
     [('Board.to_bod, to_svg, _repr_svg_, __repr__', 'cshogi/_cshogi.pyx'), ('board_to_bod, move_to_bod', 'cshogi/KIF.py'), ('move_to_san', 'cshogi/PGN.py'), ('Position::print', 'src/position.cpp')],
     'independent readers of every rendering', EXPL + RECT)

prop('C23', 'The gym environments play by the rules and reward the right side',
     'For every sequence of moves given to ShogiEnv and ShogiVecEnv from every reset position (initial, SFEN, HCP): the board shown is the position reached; a game is done exactly when the side to move has no legal move, when a position occurs for the fourth time, or on resignation; '
     'the reward belongs to the side that moved (1 mate, -1 resignation, 0 otherwise, and for perpetual check -1 to the checking side and 1 to the other); illegal moves are refused and change nothing; each game of a vector environment is independent of the others and restarts when done.',
     ['histories', 'inputs'], 'every sequence of moves and resets, every number of parallel games', 'Tests do not touch the environments.',
     ['cshogi/gym_shogi/envs/shogi_env.pyx', 'cshogi/gym_shogi/envs/shogi_vec_env.pyx'], [('ShogiEnv.reset, step, render', 'cshogi/gym_shogi/envs/shogi_env.pyx'), ('ShogiVecEnv', 'cshogi/gym_shogi/envs/shogi_vec_env.pyx')],
     'step-by-step comparison with the reference model', EXPL + RECT)

prop('C24', 'The web viewer shows the game as played or recorded',
     'For every match played through cshogi.web and every CSA record from the initial position replayed by it: the rows shown are the moves in order with number, side, text (同 exactly for a recapture), thinking time, evaluation from Black\'s point of view and variation, followed by the '
     'right ending; the match sends each engine its options, asks it exactly in its turn with the clocks as they stand, ends exactly when the rules say so, and its CSA record agrees; the command with its server shows the same.',
     ['histories', 'inputs'], 'every game, ending, comment and time control', 'No test touches the web viewer.',
     ['cshogi/web/app.py', 'cshogi/cli.py', 'cshogi/KIF.py'], [('match', 'cshogi/web/app.py'), ('run (replay)', 'cshogi/web/app.py'), ('usi_info_to_pv', 'cshogi/web/app.py')],
     'scripted peers with planned games and a reader of the rendered page', EXPL + RECT)

prop('C25', 'The web page draws the positions of its game and sends the moves made on it',
     'For every game the web viewer shows and every row selected in it, by whatever sequence of buttons, numbers and rows: the page draws exactly the position after that move (every piece with side and promotion on its square, every piece in hand with its count), marks the move just played, '
     'lists every row, and tells the last evaluation and variation of each side. For every game with a human side: the page is told the human side exactly when that side is to move; a move made with the mouse is sent as that move, asking about promotion exactly when there is a choice and promoting '
     'when there is none; the move is played exactly when it is legal and sent for the ply at hand, and what is sent for another ply or is illegal changes nothing.',
     ['histories', 'inputs', 'schedules'], 'every game, selection, click and request sequence', 'No test touches the page, its script or the requests of a human player.',
     ['cshogi/web/static/board.js', 'cshogi/web/templates/board.html', 'cshogi/web/app.py'],
     [('Board.move, Board.to_svg', 'cshogi/web/static/board.js'), ('updateBoard, updateTableMoves, selectMoveNumber, onMouseDown1, onMouseDown2', 'cshogi/web/templates/board.html'), ('Human.go, update, human_move', 'cshogi/web/app.py')],
     'the real page run by Node.js with a stand-in for the browser, driven by random navigation and clicks, read back independently', EXPL + RECT)
