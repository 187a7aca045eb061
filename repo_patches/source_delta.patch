From cf89970bdbba66cd327cda776ffecbf22d7eb565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:59 +0000
Subject: [PATCH 01/60] fix: legality queries accept moves that break the
 promotion, dead-end and drop rules

moveIsPseudoLegal<false> judges moves that come from outside, but it did not look at
promotion at all, accepted unpromoted pieces with no further move, dead-end drops, drops of
kings and promoted pieces, and a wrong captured piece; the USI reader ignored trailing
characters.
---
 src/position.cpp | 37 ++++++++++++++++++++++++++++++++++++-
 src/usi.cpp      |  8 +++++---
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 8cca77f..c723139 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -347,6 +347,20 @@ bool Position::checkMoveIsEvasion(const Move move) const {
     return true;
 }
 
+namespace {
+    // 行きどころの無い駒になるか
+    inline bool hasNoMoveFrom(const Color us, const PieceType pt, const Rank rank) {
+        switch (pt) {
+        case Pawn: case Lance:
+            return us == Black ? isInFrontOf<Black, Rank2, Rank8>(rank) : isInFrontOf<White, Rank2, Rank8>(rank);
+        case Knight:
+            return us == Black ? isInFrontOf<Black, Rank3, Rank7>(rank) : isInFrontOf<White, Rank3, Rank7>(rank);
+        default:
+            return false;
+        }
+    }
+}
+
 // Searching: true なら探索時に内部で生成した手の合法手判定を行う。
 //            ttMove で hash 値が衝突した時などで、大駒の不成など明らかに価値の低い手が生成される事がある。
 //            これは非合法手として省いて良い。
@@ -356,8 +370,16 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
     const Color them = oppositeColor(us);
     const Square to = move.to();
 
+    if (!Searching && !isInSquare(to))
+        return false;
+
     if (move.isDrop()) {
         const PieceType ptFrom = move.pieceTypeDropped();
+        if (!Searching) {
+            // 打てない駒種、余分なビット、行きどころの無い駒
+            if (ptFrom > Gold || move != makeDropMove(ptFrom, to) || hasNoMoveFrom(us, ptFrom, makeRank(to)))
+                return false;
+        }
         if (!hand(us).exists(pieceTypeToHandPiece(ptFrom)) || piece(to) != Empty)
             return false;
 
@@ -395,7 +417,20 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
         if (!attacksFrom(ptFrom, us, from).isSet(to))
             return false;
 
-        if (Searching) {
+        if (!Searching) {
+            // 余分なビットや、取る駒の不一致
+            const Move base = makeCaptureMove(ptFrom, from, to, *this);
+            if (move != base && move != (base | promoteFlag()))
+                return false;
+            if (move.isPromotion()) {
+                // Pawn から Rook までが成れる駒
+                if (ptFrom > Rook || !canPromote(us, from, to))
+                    return false;
+            }
+            else if (hasNoMoveFrom(us, ptFrom, makeRank(to)))
+                return false;
+        }
+        else {
             switch (ptFrom) {
             case Pawn  :
                 if (move.isPromotion()) {
diff --git a/src/usi.cpp b/src/usi.cpp
index ea87588..cc46020 100644
--- a/src/usi.cpp
+++ b/src/usi.cpp
@@ -62,10 +62,12 @@ namespace {
 
 Move usiToMoveBody(const Position& pos, const std::string& moveStr) {
     Move move;
+    if (moveStr.size() < 4)
+        return Move::moveNone();
     if (g_charToPieceUSI.isLegalChar(moveStr[0])) {
         // drop
         const PieceType ptTo = pieceToPieceType(g_charToPieceUSI.value(moveStr[0]));
-        if (moveStr[1] != '*')
+        if (moveStr[1] != '*' || moveStr.size() != 4)
             return Move::moveNone();
         const File toFile = charUSIToFile(moveStr[2]);
         const Rank toRank = charUSIToRank(moveStr[3]);
@@ -85,10 +87,10 @@ Move usiToMoveBody(const Position& pos, const std::string& moveStr) {
         if (!isInSquare(toFile, toRank))
             return Move::moveNone();
         const Square to = makeSquare(toFile, toRank);
-        if (moveStr[4] == '\0')
+        if (moveStr.size() == 4)
             move = makeNonPromoteMove<Capture>(pieceToPieceType(pos.piece(from)), from, to, pos);
         else if (moveStr[4] == '+') {
-            if (moveStr[5] != '\0')
+            if (moveStr.size() != 5)
                 return Move::moveNone();
             move = makePromoteMove<Capture>(pieceToPieceType(pos.piece(from)), from, to, pos);
         }
-- 
2.43.0


From 6aa5f662de5f3e469ffd30e81d6bbc3052654b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:20 +0000
Subject: [PATCH 02/60] fix: rotate_sfen loses hand counts of ten or more

The digits 0 and 1 were dropped, so 18p became 8P and 10p a malformed hand.
---
 src/cshogi.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index 332665e..c9a5163 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -610,17 +610,19 @@ std::string __rotate_sfen(const std::string& sfen) {
         for (int i = 0; i < hand.length(); i++) {
             char c = hand[i];
 
-            if (c >= '2' && c <= '9') {
-                // 数字の場合、次の駒と組み合わせる
-                i++;
+            if (c >= '0' && c <= '9') {
+                // 数字(2桁の場合あり)の場合、次の駒と組み合わせる
+                std::string num;
+                for (; i < hand.length() && hand[i] >= '0' && hand[i] <= '9'; i++)
+                    num += hand[i];
                 if (i < hand.length()) {
                     char piece = hand[i];
                     if (piece >= 'A' && piece <= 'Z') {
-                        senteHand += c;
+                        senteHand += num;
                         senteHand += piece;
                     }
                     else {
-                        goteHand += c;
+                        goteHand += num;
                         goteHand += piece;
                     }
                 }
-- 
2.43.0


From 9f025f57892ff4a3fa78809cd7bddfa24fd1a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:20 +0000
Subject: [PATCH 03/60] fix: move_is_draw reports a plain draw for a perpetual
 check

The move under test is itself one of the checks of the cycle, but only checks played before
it were counted, so the first recurrence of a perpetual check was reported as a draw.
---
 src/position.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position.cpp b/src/position.cpp
index c723139..562043f 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3320,7 +3320,8 @@ RepetitionType Position::moveIsDraw(const Move move, const int checkMaxPly) cons
             // 更に 2 手戻る。
             stp = stp->previous->previous;
             if (stp->key() == key) {
-                if (i <= st_->continuousCheck[turn()])
+                // 同一局面なので、move が王手かは stp の王手と同じ。move の前は i - 2 手分の連続王手
+                if (stp->checkersBB && i - 2 <= st_->continuousCheck[turn()])
                     return RepetitionWin;
                 else if (i <= st_->continuousCheck[oppositeColor(turn())])
                     return RepetitionLose;
-- 
2.43.0


From a6b46386ccac09402dd65002c68e9e8b9f14f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:20 +0000
Subject: [PATCH 04/60] fix: nyugyoku input features are dropped at the
 threshold and left uncleared

A negative remainder was compared with an unsigned constant, so a side past the piece or point
threshold had no plane set at all; and the nyugyoku planes were not cleared before being filled.
---
 src/cshogi.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index c9a5163..dbf92ba 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -347,13 +347,13 @@ public:
     // 駒の利き、王手情報を含む特徴量(dlshogi互換)
     void _dlshogi_make_input_features(char* mem1, char* mem2) const {
         typedef float features1_t[ColorNum][MAX_FEATURES1_NUM][SquareNum];
-        typedef float features2_t[MAX_FEATURES2_NUM][SquareNum];
+        typedef float features2_t[MAX_FEATURES2_NUM + (int)ColorNum * MAX_FEATURES2_NYUGYOKU_NUM][SquareNum];
         features1_t* const features1 = reinterpret_cast<features1_t* const>(mem1);
         features2_t* const features2 = reinterpret_cast<features2_t* const>(mem2);
         float(* const features2_hand)[ColorNum][MAX_PIECES_IN_HAND_SUM][SquareNum] = reinterpret_cast<float(* const)[ColorNum][MAX_PIECES_IN_HAND_SUM][SquareNum]>(mem2);
 
         std::fill_n((float*)features1, sizeof(features1_t) / sizeof(float), 0);
-        std::fill_n((float*)features2, sizeof(features2_t) / sizeof(float), 0);
+        std::fill_n((float*)features2, __dlshogi_get_features2_num() * SquareNum, 0);
 
         const Bitboard occupied_bb = pos.occupiedBB();
 
@@ -437,7 +437,7 @@ public:
                 // 敵陣三段目以内の駒(10枚までの残り枚数)
                 const int ownPiecesCount = (pos.bbOf(c) & opponentsField).popCount() - kingCount;
                 const int restOppFieldNum = 10 - ownPiecesCount;
-                if (restOppFieldNum < MAX_NYUGYOKU_OPP_FIELD) {
+                if (restOppFieldNum < (int)MAX_NYUGYOKU_OPP_FIELD) {
                     std::fill_n((*features2)[MAX_FEATURES2_HAND_NUM + 1 + (int)c2 * MAX_FEATURES2_NYUGYOKU_NUM + 1 + std::max(0, restOppFieldNum)], SquareNum, 1);
                 }
 
@@ -449,7 +449,7 @@ public:
                     + numHSilver + numHGold
                     + (ownBigPiecesCount + numHBishop + numHRook) * 5;
                 const int restPoint = (c == Black ? 28 : 27) - val;
-                if (restPoint < MAX_NYUGYOKU_SCORE) {
+                if (restPoint < (int)MAX_NYUGYOKU_SCORE) {
                     std::fill_n((*features2)[MAX_FEATURES2_HAND_NUM + 1 + (int)c2 * MAX_FEATURES2_NYUGYOKU_NUM + 1 + MAX_NYUGYOKU_OPP_FIELD + std::max(0, restPoint)], SquareNum, 1);
                 }
             }
-- 
2.43.0


From 31d83af81fe654d1cc1d2a8d1f0ef2dd65eb3598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:20 +0000
Subject: [PATCH 05/60] fix: pop_pass does not restore the perpetual-check
 counters

push_pass clears one of them; after pop_pass a perpetual check spanning the pair was reported
as a plain draw.
---
 src/position.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 562043f..4307085 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -697,6 +697,8 @@ template <bool DO> void Position::doNullMove(StateInfo& backUpSt) {
     dst->boardKey = src->boardKey;
     dst->handKey = src->handKey;
     dst->pliesFromNull = src->pliesFromNull;
+    dst->continuousCheck[Black] = src->continuousCheck[Black];
+    dst->continuousCheck[White] = src->continuousCheck[White];
     dst->hand = hand(turn());
     turn_ = oppositeColor(turn());
 
-- 
2.43.0


From 9a0ce1a236379f9ae8f8903fb930aec0c9887059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:24 +0000
Subject: [PATCH 06/60] fix: malformed SFEN aborts the process, writes out of
 bounds or is read as another position

Board.set_sfen let the C++ exception escape (no 'except +') and ended the
interpreter.  Position::set also accepted ranks that are not nine squares
wide, promoted golds and kings, kings in hand, overflowing hand counts and
more pieces than a set has.  Reject them, and keep the board unchanged when
the input is rejected.
---
 cshogi/_cshogi.pyx |  2 +-
 src/cshogi.h       | 11 ++++----
 src/position.cpp   | 68 ++++++++++++++++++++++++++++++++++++++++++----
 3 files changed, 69 insertions(+), 12 deletions(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 9a56bcb..02c3c48 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -260,7 +260,7 @@ cdef extern from "cshogi.h":
         __Board() except +
         __Board(const string& sfen) except +
         __Board(const __Board& board) except +
-        void set(const string& sfen)
+        void set(const string& sfen) except +
         void set_position(const string& position) except +
         void set_pieces(const int pieces[], const int pieces_in_hand[][7])
         void set_hcp(char* hcp) except +
diff --git a/src/cshogi.h b/src/cshogi.h
index dbf92ba..ebd68b8 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -102,11 +102,9 @@ public:
     ~__Board() {}
 
     void set(const std::string& sfen) {
-        history.clear();
-        pos.set(sfen);
+        *this = __Board(sfen); // 不正な文字列の場合、元の局面を保持する
     }
     void set_position(const std::string& position) {
-        history.clear();
         std::istringstream ssPosCmd(position);
         std::string token;
         std::string sfen;
@@ -124,13 +122,14 @@ public:
         else
             throw std::runtime_error("incorrect position string");
 
-        pos.set(sfen);
+        __Board next(sfen); // 不正な文字列の場合、元の局面を保持する
 
         while (ssPosCmd >> token) {
-            const Move move = usiToMove(pos, token);
+            const Move move = usiToMove(next.pos, token);
             if (!move) throw std::runtime_error("incorrect move string : " + token);
-            push(move.value());
+            next.push(move.value());
         }
+        *this = next;
     }
     void set_pieces(const int pieces[], const int pieces_in_hand[][7]) {
         history.clear();
diff --git a/src/position.cpp b/src/position.cpp
index 4307085..99f784a 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -202,6 +202,32 @@ namespace {
     inline const char* pieceToCharUSI(const Piece pc) {
         return PieceToCharUSITable[pc];
     }
+
+    // 駒種ごとの駒の枚数
+    const int MaxPieces[HandPieceNum] = { 18, 4, 4, 4, 4, 2, 2 };
+
+    // 盤上と持ち駒の合計が将棋の駒の枚数を超えていないか
+    bool isPieceCountOK(const Position& pos) {
+        int counts[HandPieceNum] = {};
+        int kings[ColorNum] = {};
+        for (Square sq = SQ11; sq < SquareNum; ++sq) {
+            const Piece pc = pos.piece(sq);
+            if (pc == Empty)
+                continue;
+            const PieceType pt = pieceToPieceType(pc);
+            if (pt == King)
+                ++kings[pieceToColor(pc)];
+            else
+                ++counts[pieceTypeToHandPiece(pt)];
+        }
+        if (kings[Black] > 1 || kings[White] > 1)
+            return false;
+        for (HandPiece hp = HPawn; hp < HandPieceNum; ++hp) {
+            if (counts[hp] + (int)pos.hand(Black).numOf(hp) + (int)pos.hand(White).numOf(hp) > MaxPieces[hp])
+                return false;
+        }
+        return true;
+    }
 }
 
 CheckInfo::CheckInfo(const Position& pos) {
@@ -3371,19 +3397,38 @@ void Position::set(const std::string& sfen) {
     std::istringstream ss(sfen);
     char token;
     Square sq = SQ91;
+    int ranks = 1; // 何段目か
+    int width = 0; // 段の中で読み込んだマスの数
 
     clear();
 
     // 盤上の駒
     while (ss.get(token) && token != ' ') {
-        if (isdigit(token))
+        // '+' の直後は成れる駒に限る
+        if (promoteFlag == Promoted) {
+            if (!g_charToPieceUSI.isLegalChar(token))
+                goto INCORRECT;
+            const PieceType pt = pieceToPieceType(g_charToPieceUSI.value(token));
+            if (pt == Gold || pt == King)
+                goto INCORRECT;
+        }
+        if (isdigit(token)) {
+            width += token - '0';
+            if (token == '0' || width > 9)
+                goto INCORRECT;
             sq += DeltaE * (token - '0');
-        else if (token == '/')
+        }
+        else if (token == '/') {
+            if (width != 9 || ranks == 9)
+                goto INCORRECT;
+            width = 0;
+            ++ranks;
             sq += (DeltaW * 9) + DeltaS;
+        }
         else if (token == '+')
             promoteFlag = Promoted;
         else if (g_charToPieceUSI.isLegalChar(token)) {
-            if (isInSquare(sq)) {
+            if (++width <= 9) {
                 setPiece(g_charToPieceUSI.value(token) + promoteFlag, sq);
                 promoteFlag = UnPromoted;
                 sq += DeltaE;
@@ -3394,6 +3439,8 @@ void Position::set(const std::string& sfen) {
         else
             goto INCORRECT;
     }
+    if (ranks != 9 || width != 9 || promoteFlag == Promoted)
+        goto INCORRECT;
     kingSquare_[Black] = king_square_or_square_num(bbOf(King, Black));
     kingSquare_[White] = king_square_or_square_num(bbOf(King, White));
     goldsBB_ = bbOf(Gold, ProPawn, ProLance, ProKnight, ProSilver);
@@ -3412,18 +3459,29 @@ void Position::set(const std::string& sfen) {
     for (int digits = 0; ss.get(token) && token != ' '; ) {
         if (token == '-')
             memset(hand_, 0, sizeof(hand_));
-        else if (isdigit(token))
+        else if (isdigit(token)) {
             digits = digits * 10 + token - '0';
+            if (digits > 18)
+                goto INCORRECT;
+        }
         else if (g_charToPieceUSI.isLegalChar(token)) {
             // 持ち駒を32bit に pack する
             const Piece piece = g_charToPieceUSI.value(token);
-            setHand(piece, (digits == 0 ? 1 : digits));
+            const int num = (digits == 0 ? 1 : digits);
+            if (pieceToPieceType(piece) == King)
+                goto INCORRECT;
+            const HandPiece hp = pieceTypeToHandPiece(pieceToPieceType(piece));
+            if (hand(pieceToColor(piece)).exists(hp) || num > MaxPieces[hp])
+                goto INCORRECT;
+            setHand(piece, num);
 
             digits = 0;
         }
         else
             goto INCORRECT;
     }
+    if (!isPieceCountOK(*this))
+        goto INCORRECT;
 
     // 次の手が何手目か
     ss >> gamePly_;
-- 
2.43.0


From 2a2b8df0f446ff363ddd20202ffc2aaffecc0905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:05 +0000
Subject: [PATCH 07/60] fix: malformed hcp and psfen data write out of bounds
 or are read as another position

Kings outside the board or on one square, codes that run past the 256 bits
and more pieces than a set has are rejected; a position without a king is
refused by to_hcp/to_psfen instead of writing a 33rd byte; arrays shorter
than 32 bytes are refused.  The board is unchanged when input is rejected.
---
 cshogi/_cshogi.pyx | 12 ++++++++++--
 src/cshogi.h       | 12 +++++++++---
 src/position.cpp   | 32 ++++++++++++++++++++++++++------
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 02c3c48..9d27e7b 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -286,8 +286,8 @@ cdef extern from "cshogi.h":
         void setPly(const int ply)
         string toSFEN()
         string toCSAPos()
-        void toHuffmanCodedPos(char* data)
-        void toPackedSfen(char* data)
+        void toHuffmanCodedPos(char* data) except +
+        void toPackedSfen(char* data) except +
         int piece(const int sq)
         int kingSquare(const int c)
         bool inCheck()
@@ -456,6 +456,8 @@ cdef class Board:
             board.set_hcp(np.asarray(hcp[0]))
 
         """
+        if hcp.nbytes < 32:
+            raise ValueError("hcp requires 32 bytes")
         self.__board.set_hcp(hcp.data)
 
     def set_psfen(self, np.ndarray psfen):
@@ -473,6 +475,8 @@ cdef class Board:
             board.set_psfen(np.asarray(psfen[0]))
 
         """
+        if psfen.nbytes < 32:
+            raise ValueError("psfen requires 32 bytes")
         self.__board.set_psfen(psfen.data)
 
     def reset(self):
@@ -789,6 +793,8 @@ cdef class Board:
         :param hcp: An array to store the hcp data.
         :type hcp: np.ndarray
         """
+        if hcp.nbytes < 32:
+            raise ValueError("hcp requires 32 bytes")
         return self.__board.toHuffmanCodedPos(hcp.data)
 
     def to_psfen(self, np.ndarray psfen):
@@ -797,6 +803,8 @@ cdef class Board:
         :param psfen: An array to store the psfen data.
         :type psfen: np.ndarray
         """
+        if psfen.nbytes < 32:
+            raise ValueError("psfen requires 32 bytes")
         return self.__board.toPackedSfen(psfen.data)
 
     def piece(self, int sq):
diff --git a/src/cshogi.h b/src/cshogi.h
index ebd68b8..c134794 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -102,7 +102,9 @@ public:
     ~__Board() {}
 
     void set(const std::string& sfen) {
-        *this = __Board(sfen); // 不正な文字列の場合、元の局面を保持する
+        const Position next(sfen); // 不正な文字列の場合、元の局面を保持する
+        history.clear();
+        pos = next;
     }
     void set_position(const std::string& position) {
         std::istringstream ssPosCmd(position);
@@ -136,12 +138,16 @@ public:
         pos.set((const Piece*)pieces, pieces_in_hand);
     }
     void set_hcp(char* hcp) {
+        Position next;
+        next.set_hcp(hcp); // 不正なデータの場合、元の局面を保持する
         history.clear();
-        pos.set_hcp(hcp);
+        pos = next;
     }
     void set_psfen(char* psfen) {
+        Position next;
+        next.set_psfen(psfen); // 不正なデータの場合、元の局面を保持する
         history.clear();
-        pos.set_psfen(psfen);
+        pos = next;
     }
 
     void reset() {
diff --git a/src/position.cpp b/src/position.cpp
index 99f784a..3aa6ed4 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3078,6 +3078,9 @@ std::string Position::toCSAPos() const {
 }
 
 void Position::toHuffmanCodedPos(u8* data) const {
+    // 玉がないと 256 bit に収まらない
+    if (!isInSquare(kingSquare(Black)) || !isInSquare(kingSquare(White)))
+        throw std::runtime_error("position without king cannot be encoded");
     std::fill(data, data + 32, 0);
     BitStream bs(data);
     // 手番 (1bit)
@@ -3121,6 +3124,9 @@ void Position::toHuffmanCodedPos(u8* data) const {
 }
 
 void Position::toPackedSfen(u8* data) const {
+    // 玉がないと 256 bit に収まらない
+    if (!isInSquare(kingSquare(Black)) || !isInSquare(kingSquare(White)))
+        throw std::runtime_error("position without king cannot be encoded");
     std::fill(data, data + 32, 0);
     BitStream bs(data);
     // 手番 (1bit)
@@ -3542,6 +3548,8 @@ void Position::set_hcp(const char* hcp_data) {
     // 玉の位置
     Square sq0 = (Square)bs.getBits(7);
     Square sq1 = (Square)bs.getBits(7);
+    if (!isInSquare(sq0) || !isInSquare(sq1) || sq0 == sq1)
+        goto INCORRECT_HUFFMAN_CODE;
     setPiece(BKing, static_cast<Square>(sq0));
     setPiece(WKing, static_cast<Square>(sq1));
 
@@ -3550,7 +3558,7 @@ void Position::set_hcp(const char* hcp_data) {
         if (pieceToPieceType(piece(sq)) == King) // piece(sq) は BKing, WKing, Empty のどれか。
             continue;
         HuffmanCode hc = {0, 0};
-        while (hc.numOfBits <= 8) {
+        while (hc.numOfBits <= 8 && bs.data() != std::end(tmp.data)) {
             hc.code |= bs.getBit() << hc.numOfBits++;
             if (HuffmanCodedPos::boardCodeToPieceHash.value(hc.key) != PieceNone) {
                 const Piece pc = HuffmanCodedPos::boardCodeToPieceHash.value(hc.key);
@@ -3564,19 +3572,24 @@ void Position::set_hcp(const char* hcp_data) {
     }
     while (bs.data() != std::end(tmp.data)) {
         HuffmanCode hc = {0, 0};
-        while (hc.numOfBits <= 8) {
+        while (hc.numOfBits <= 8 && bs.data() != std::end(tmp.data)) {
             hc.code |= bs.getBit() << hc.numOfBits++;
             const Piece pc = HuffmanCodedPos::handCodeToPieceHash.value(hc.key);
             if (pc == Empty)
                 break;
             if (pc != PieceNone) {
-                hand_[pieceToColor(pc)].plusOne(pieceTypeToHandPiece(pieceToPieceType(pc)));
+                const HandPiece hp = pieceTypeToHandPiece(pieceToPieceType(pc));
+                if ((int)hand(pieceToColor(pc)).numOf(hp) >= MaxPieces[hp])
+                    goto INCORRECT_HUFFMAN_CODE;
+                hand_[pieceToColor(pc)].plusOne(hp);
                 break;
             }
         }
         if (HuffmanCodedPos::handCodeToPieceHash.value(hc.key) == PieceNone)
             goto INCORRECT_HUFFMAN_CODE;
     }
+    if (!isPieceCountOK(*this))
+        goto INCORRECT_HUFFMAN_CODE;
 
     kingSquare_[Black] = king_square_or_square_num(bbOf(King, Black));
     kingSquare_[White] = king_square_or_square_num(bbOf(King, White));
@@ -3608,6 +3621,8 @@ void Position::set_psfen(const char* psfen_data) {
     // 玉の位置
     Square sq0 = (Square)bs.getBits(7);
     Square sq1 = (Square)bs.getBits(7);
+    if (!isInSquare(sq0) || !isInSquare(sq1) || sq0 == sq1)
+        goto INCORRECT_HUFFMAN_CODE;
     setPiece(BKing, static_cast<Square>(sq0));
     setPiece(WKing, static_cast<Square>(sq1));
 
@@ -3616,7 +3631,7 @@ void Position::set_psfen(const char* psfen_data) {
         if (pieceToPieceType(piece(sq)) == King) // piece(sq) は BKing, WKing, Empty のどれか。
             continue;
         HuffmanCode hc = { 0, 0 };
-        while (hc.numOfBits <= 8) {
+        while (hc.numOfBits <= 8 && bs.data() != std::end(tmp.data)) {
             hc.code |= bs.getBit() << hc.numOfBits++;
             if (PackedSfen::boardCodeToPieceHash.value(hc.key) != PieceNone) {
                 const Piece pc = PackedSfen::boardCodeToPieceHash.value(hc.key);
@@ -3630,19 +3645,24 @@ void Position::set_psfen(const char* psfen_data) {
     }
     while (bs.data() != std::end(tmp.data)) {
         HuffmanCode hc = { 0, 0 };
-        while (hc.numOfBits <= 8) {
+        while (hc.numOfBits <= 8 && bs.data() != std::end(tmp.data)) {
             hc.code |= bs.getBit() << hc.numOfBits++;
             const Piece pc = PackedSfen::handCodeToPieceHash.value(hc.key);
             if (pc == Empty)
                 break;
             if (pc != PieceNone) {
-                hand_[pieceToColor(pc)].plusOne(pieceTypeToHandPiece(pieceToPieceType(pc)));
+                const HandPiece hp = pieceTypeToHandPiece(pieceToPieceType(pc));
+                if ((int)hand(pieceToColor(pc)).numOf(hp) >= MaxPieces[hp])
+                    goto INCORRECT_HUFFMAN_CODE;
+                hand_[pieceToColor(pc)].plusOne(hp);
                 break;
             }
         }
         if (PackedSfen::handCodeToPieceHash.value(hc.key) == PieceNone)
             goto INCORRECT_HUFFMAN_CODE;
     }
+    if (!isPieceCountOK(*this))
+        goto INCORRECT_HUFFMAN_CODE;
 
     kingSquare_[Black] = king_square_or_square_num(bbOf(King, Black));
     kingSquare_[White] = king_square_or_square_num(bbOf(King, White));
-- 
2.43.0


From 2c9e4576c519380982c5fae5dd71092943fb6736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:57 +0000
Subject: [PATCH 08/60] fix: set_pieces writes out of bounds for piece codes
 and hand counts that do not exist

---
 cshogi/_cshogi.pyx | 2 +-
 src/cshogi.h       | 4 +++-
 src/position.cpp   | 7 +++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 9d27e7b..836e108 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -262,7 +262,7 @@ cdef extern from "cshogi.h":
         __Board(const __Board& board) except +
         void set(const string& sfen) except +
         void set_position(const string& position) except +
-        void set_pieces(const int pieces[], const int pieces_in_hand[][7])
+        void set_pieces(const int pieces[], const int pieces_in_hand[][7]) except +
         void set_hcp(char* hcp) except +
         void set_psfen(char* psfen) except +
         void reset()
diff --git a/src/cshogi.h b/src/cshogi.h
index c134794..5d328fa 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -134,8 +134,10 @@ public:
         *this = next;
     }
     void set_pieces(const int pieces[], const int pieces_in_hand[][7]) {
+        Position next(pos);
+        next.set((const Piece*)pieces, pieces_in_hand); // 不正な配置の場合、元の局面を保持する
         history.clear();
-        pos.set((const Piece*)pieces, pieces_in_hand);
+        pos = next;
     }
     void set_hcp(char* hcp) {
         Position next;
diff --git a/src/position.cpp b/src/position.cpp
index 3aa6ed4..1a96dab 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3511,15 +3511,22 @@ void Position::set(const Piece pieces[SquareNum], const int pieces_in_hand[Color
 
     // 盤上の駒
     for (Square sq = SQ11; sq < SquareNum; ++sq) {
+        const int pc = pieces[sq];
+        if (!(Empty <= pc && pc <= BDragon) && !(WPawn <= pc && pc <= WDragon))
+            throw std::runtime_error("incorrect pieces");
         if (pieces[sq] != Piece::Empty)
             setPiece(pieces[sq], sq);
     }
     // 持ち駒
     for (Color c = Black; c < ColorNum; ++c) {
         for (HandPiece hp = HPawn; hp < HandPieceNum; ++hp) {
+            if (pieces_in_hand[c][hp] < 0 || pieces_in_hand[c][hp] > MaxPieces[hp])
+                throw std::runtime_error("incorrect pieces in hand");
             setHand(hp, c, pieces_in_hand[c][hp]);
         }
     }
+    if (!isPieceCountOK(*this))
+        throw std::runtime_error("incorrect pieces");
     // 手番
     turn_ = turn;
 
-- 
2.43.0


From 745b7e20c1b484bf84dda02f04eaf34db5829d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:08 +0000
Subject: [PATCH 09/60] fix: pop on an empty history or on a pass corrupts the
 board

---
 cshogi/_cshogi.pyx | 4 ++--
 src/cshogi.h       | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 836e108..83330e1 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -268,7 +268,7 @@ cdef extern from "cshogi.h":
         void reset()
         string dump()
         void push(const int move)
-        int pop()
+        int pop() except +
         int peek()
         vector[int] get_history()
         bool is_game_over()
@@ -305,7 +305,7 @@ cdef extern from "cshogi.h":
         void piece_planes_rotate(char* mem)
         void _dlshogi_make_input_features(char* mem1, char* mem2)
         void push_pass()
-        void pop_pass()
+        void pop_pass() except +
         bool isOK()
         unsigned long long bookKey()
         unsigned long long bookKeyAfter(const unsigned long long key, const int move)
diff --git a/src/cshogi.h b/src/cshogi.h
index 5d328fa..3fb719d 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -1,6 +1,8 @@
 ﻿#ifndef CSHOGI_H
 #define CSHOGI_H
 
+#include <stdexcept>
+
 #include "init.hpp"
 #include "position.hpp"
 #include "generateMoves.hpp"
@@ -169,7 +171,12 @@ public:
     }
 
     int pop() {
+        if (history.empty()) throw std::out_of_range("pop from empty history");
         const auto move = history.back().first;
+        if (move == Move::moveNull()) {
+            pop_pass();
+            return move.value();
+        }
         pos.undoMove(move);
         history.pop_back();
         return move.value();
@@ -187,6 +194,7 @@ public:
         pos.doNullMove<true>(history.back().second);
     }
     void pop_pass() {
+        if (history.empty() || history.back().first != Move::moveNull()) throw std::out_of_range("last move is not a pass");
         pos.doNullMove<false>(history.back().second);
         history.pop_back();
     }
-- 
2.43.0


From 6bf584d384fe73d5ee8bbb6a4105332b5ffd5cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:47 +0000
Subject: [PATCH 10/60] fix: mate_move_in_1ply returns illegal or non-mating
 moves when the side to move is in check

---
 src/cshogi.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index 3fb719d..7147d18 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -254,7 +254,21 @@ public:
     int piece(const int sq) const { return (int)pos.piece((Square)sq); }
     int kingSquare(const int c) { return (int)pos.kingSquare((Color)c); }
     bool inCheck() const { return pos.inCheck(); }
-    int mateMoveIn1Ply() { return pos.mateMoveIn1Ply().value(); }
+    int mateMoveIn1Ply() {
+        if (!pos.inCheck())
+            return pos.mateMoveIn1Ply().value();
+        // pos.mateMoveIn1Ply() は王手がかかっている局面に対応していない
+        for (MoveList<LegalAll> ml(pos); !ml.end(); ++ml) {
+            const Move move = ml.move();
+            StateInfo state;
+            pos.doMove(move, state);
+            const bool mate = pos.inCheck() && MoveList<LegalAll>(pos).size() == 0;
+            pos.undoMove(move);
+            if (mate)
+                return move.value();
+        }
+        return Move::moveNone().value();
+    }
     int mateMove(int ply) {
         if (pos.inCheck())
             return mateMoveInOddPlyReturnMove<true>(pos, ply).value();
-- 
2.43.0


From c0f48f33851d4b92254b2576f75377491f542cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:52 +0000
Subject: [PATCH 11/60] fix: mate_move_in_1ply encodes a promoted piece's
 discovered mate as a gold move

---
 src/position.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 1a96dab..889376c 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -2570,7 +2570,7 @@ silver_drop_end:
                     if (!can_king_escape_cangoto(*this, Them, from, to, bb_attacks, slide)) {
                         if (promo && !(pt & PTPromote) && pt != Gold)
                             return makePromoteMove<Capture>(pt, from, to, *this);
-                        return makeCaptureMove(pt, from, to, *this);
+                        return makeCaptureMove(pieceToPieceType(piece(from)), from, to, *this);
                     }
 
                 DC_Silver_NO_PRO:
@@ -2819,7 +2819,7 @@ silver_drop_end:
                         if (canPromote(US, from, to) && !(piece(from) & PTPromote) && pt != Gold)
                             return makePromoteMove<Capture>(pt, from, to, *this);
                         else
-                            return makeCaptureMove(pt, from, to, *this);
+                            return makeCaptureMove(pieceToPieceType(piece(from)), from, to, *this);
                     }
 
                 DISCOVER_ATTACK_CONTINUE_Silver:
-- 
2.43.0


From 99e74248ed711653348b3a364c4026ba0ad49daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:10 +0000
Subject: [PATCH 12/60] fix: mate searches overflow their move buffers when
 there are more than 91 evasions

---
 src/dfpn.cpp | 2 +-
 src/mate.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dfpn.cpp b/src/dfpn.cpp
index c9fce7f..11c8ac1 100644
--- a/src/dfpn.cpp
+++ b/src/dfpn.cpp
@@ -19,7 +19,7 @@ void DfPn::dfpn_stop(const bool stop)
 
 // 詰将棋エンジン用のMovePicker
 namespace ns_dfpn {
-    const constexpr size_t MaxCheckMoves = 91;
+    const constexpr size_t MaxCheckMoves = 128; // 合駒の多い局面では Evasion が 91 手を超える
 
     template <bool or_node>
     class MovePicker {
diff --git a/src/mate.cpp b/src/mate.cpp
index 6c9fb3f..0153a0b 100644
--- a/src/mate.cpp
+++ b/src/mate.cpp
@@ -4,7 +4,7 @@
 
 #include "mate.h"
 
-const constexpr size_t MaxCheckMoves = 91;
+const constexpr size_t MaxCheckMoves = 128; // 合駒の多い局面では Evasion が 91 手を超える
 
 // 詰み探索用のMovePicker
 template <bool or_node, bool INCHECK>
-- 
2.43.0


From 634e0c57319c9ff7d67d953d8ddcecc9e26867e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:07 +0000
Subject: [PATCH 13/60] fix: SFEN with a stray '-', a dangling or zero count or
 two turn letters is read as another position

---
 src/position.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 889376c..552bde3 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3405,6 +3405,7 @@ void Position::set(const std::string& sfen) {
     Square sq = SQ91;
     int ranks = 1; // 何段目か
     int width = 0; // 段の中で読み込んだマスの数
+    int digits = 0; // 持ち駒の枚数
 
     clear();
 
@@ -3452,8 +3453,10 @@ void Position::set(const std::string& sfen) {
     goldsBB_ = bbOf(Gold, ProPawn, ProLance, ProKnight, ProSilver);
 
     // 手番
-    while (ss.get(token) && token != ' ') {
-        if (token == 'b')
+    for (bool first = true; ss.get(token) && token != ' '; first = false) {
+        if (!first)
+            goto INCORRECT;
+        else if (token == 'b')
             turn_ = Black;
         else if (token == 'w')
             turn_ = White;
@@ -3462,12 +3465,15 @@ void Position::set(const std::string& sfen) {
     }
 
     // 持ち駒
-    for (int digits = 0; ss.get(token) && token != ' '; ) {
-        if (token == '-')
-            memset(hand_, 0, sizeof(hand_));
+    for (bool first = true; ss.get(token) && token != ' '; first = false) {
+        if (token == '-') {
+            // 持ち駒なし
+            if (!first || (ss.peek() != ' ' && ss.peek() != EOF))
+                goto INCORRECT;
+        }
         else if (isdigit(token)) {
             digits = digits * 10 + token - '0';
-            if (digits > 18)
+            if (digits == 0 || digits > 18)
                 goto INCORRECT;
         }
         else if (g_charToPieceUSI.isLegalChar(token)) {
@@ -3486,7 +3492,7 @@ void Position::set(const std::string& sfen) {
         else
             goto INCORRECT;
     }
-    if (!isPieceCountOK(*this))
+    if (digits != 0 || !isPieceCountOK(*this))
         goto INCORRECT;
 
     // 次の手が何手目か
-- 
2.43.0


From 668b7b7abcf7d5755db72788185fc4bf36e7434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:19 +0000
Subject: [PATCH 14/60] fix: a 16-bit move to a square off the board reads out
 of bounds

---
 src/move.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/move.hpp b/src/move.hpp
index fd81de5..f7b5028 100644
--- a/src/move.hpp
+++ b/src/move.hpp
@@ -202,7 +202,7 @@ template <typename T, bool UseSentinel = false> inline void insertionSort(T firs
 }
 
 inline Move move16toMove(const Move move, const Position& pos) {
-    if (!move)
+    if (!move || move.to() >= SquareNum) // 盤外への移動は指し手ではない
         return Move::moveNone();
     if (move.isDrop())
         return move;
-- 
2.43.0


From 941a95232cc582696ca36f4bf9ed7ac1feaeb12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:27 +0000
Subject: [PATCH 15/60] fix: reject unknown piece names in CSA positions

---
 src/parser.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index 4b644e1..eef64d5 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -34,7 +34,10 @@ namespace parser {
             (*this)["RY"] = Dragon;
         }
         PieceType value(const std::string& str) const {
-            return this->find(str)->second;
+            const auto itr = this->find(str);
+            if (itr == this->end())
+                throw std::domain_error("Invalid piece: " + str);
+            return itr->second;
         }
     };
     const StringToPieceTypeCSA stringToPieceTypeCSA;
@@ -73,7 +76,10 @@ namespace parser {
             (*this)["-RY"] = WDragon;
         }
         Piece value(const std::string& str) const {
-            return this->find(str)->second;
+            const auto itr = this->find(str);
+            if (itr == this->end())
+                throw std::domain_error("Invalid piece: " + str);
+            return itr->second;
         }
     };
     const StringToPieceCSA stringToPieceCSA;
-- 
2.43.0


From 00b7838c690b86bf1b44c2b11de2168e4f7787e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:27 +0000
Subject: [PATCH 16/60] fix: place the pieces of CSA P+/P- lines on their own
 squares

---
 src/parser.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index eef64d5..d0474ae 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -292,7 +292,7 @@ namespace parser {
             int file_index;
             Piece piece;
             int pieces_in_hand[PieceNone] = {};
-            Piece pieces_in_board[9][9];
+            Piece pieces_in_board[9][9] = {};
 
             // ex.) P1 - KY - KE - GI - KI - OU - KI - GI - KE - KY
             for (auto line : position_block_lines) {
@@ -318,18 +318,21 @@ namespace parser {
                     if (itrColor != COLOR_SYMBOLS.end()) {
                         int index = 2;
                         while (index < line.size()) {
-                            rank_index = std::stoi(line.substr(index, 1));
-                            index += 1;
                             file_index = std::stoi(line.substr(index, 1));
                             index += 1;
+                            rank_index = std::stoi(line.substr(index, 1));
+                            index += 1;
                             piece = stringToPieceCSA.value((*itrColor) + line.substr(index, 2));
                             index += 2;
                             if (rank_index == 0 && file_index == 0) {
                                 // piece in hand
                                 pieces_in_hand[piece] += 1;
                             }
+                            else if (rank_index == 0 || file_index == 0) {
+                                throw std::domain_error("Invalid square: " + line);
+                            }
                             else {
-                                pieces_in_board[(rank_index - 1)][(file_index - 1)] = piece;
+                                pieces_in_board[(rank_index - 1)][(9 - file_index)] = piece;
                             }
                         }
                     }
-- 
2.43.0


From a7de923e36eb38b74fad457ef75cba2441edb57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:27 +0000
Subject: [PATCH 17/60] fix: reject illegal moves in CSA records instead of
 playing a null move

---
 src/parser.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.h b/src/parser.h
index d0474ae..82b467c 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -217,6 +217,11 @@ namespace parser {
                         if (!pos_initialized)
                             throw std::domain_error("Board infomation is not defined before a special move");
                         Move move = csaToMove(pos, line.substr(1, 6));
+                        if (!move) {
+                            std::stringstream ss;
+                            ss << "Illegal move in line " << line_no << ": " << line;
+                            throw std::domain_error(ss.str());
+                        }
                         moves.push_back(move.value());
                         states->push_back(StateInfo());
                         pos.doMove(move, states->back());
-- 
2.43.0


From d3151572f12c4262e54f35a0f0777489121ed181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:27 +0000
Subject: [PATCH 18/60] fix: do not index an empty move list for a CSA comment
 before the first move

---
 src/parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.h b/src/parser.h
index 82b467c..05486be 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -163,7 +163,7 @@ namespace parser {
                         }
                     }
                     // score
-                    else if (line.substr(0, 4) == "'** ") {
+                    else if (line.substr(0, 4) == "'** " && !moves.empty()) {
                         auto last = line.find_first_of(" ", 4);
                         if (last == std::string::npos)
                             last = line.size();
@@ -171,6 +171,7 @@ namespace parser {
                             scores[moves.size() - 1] = std::stoi(line.substr(4, last - 4));
                         }
                         catch (std::invalid_argument&) {}
+                        catch (std::out_of_range&) {}
                         comments[moves.size() - 1] = line.substr(4);
                     }
                     else {
-- 
2.43.0


From 30a8aac7b3db1ebe98a985013283583d17bc376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:27 +0000
Subject: [PATCH 19/60] fix: ignore the turn of a CSA position that is not set
 up yet

---
 src/parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.h b/src/parser.h
index 05486be..fd9ddf0 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -183,7 +183,8 @@ namespace parser {
                                 const auto reason = line.substr(9, found_pos - 9);
                                 if (reason == "illegal move") {
                                     endgame = "%ILLEGAL_MOVE";
-                                    lose_color = pos.turn();
+                                    if (pos_initialized)
+                                        lose_color = pos.turn();
                                 }
                                 else if (reason == "max_moves") {
                                     endgame = "%JISHOGI";
-- 
2.43.0


From 5b36c28f7cf3b69d822aad8eccfa985eb9230f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:27 +0000
Subject: [PATCH 20/60] fix: read the time of a CSA move written on the same
 line

---
 src/parser.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index fd9ddf0..9838f67 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -231,8 +231,13 @@ namespace parser {
                         scores.resize(moves.size());
                         // Comment
                         comments.resize(moves.size());
-                        if (line.substr(7, 2) == ",\'") {
-                            comments[moves.size() - 1] = line.substr(9);
+                        std::string rest = line.substr(7);
+                        if (rest.substr(0, 2) == ",T") {
+                            times.back() = std::stoi(rest.substr(2));
+                            rest = rest.substr(std::min(rest.find(',', 2), rest.size()));
+                        }
+                        if (rest.substr(0, 2) == ",\'") {
+                            comments[moves.size() - 1] = rest.substr(2);
                         }
                     }
                 }
-- 
2.43.0


From 336ce56819392b0fa8e59262f3e2a736bfd8c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:17 +0000
Subject: [PATCH 21/60] fix: CSA export of a game set up from an SFEN string

---
 cshogi/CSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/CSA.py b/cshogi/CSA.py
index 2a5a820..b9051b1 100644
--- a/cshogi/CSA.py
+++ b/cshogi/CSA.py
@@ -86,7 +86,7 @@ class Exporter:
                 self.f.write('PI\n+\n')
             else:
                 self.f.write(csa_pos)
-            self.turn = init_board.turn
+            self.turn = board.turn
         else:
             self.f.write('PI\n+\n')
             self.turn = cshogi.BLACK
-- 
2.43.0


From 77d91883e4427edb9a12b807a744362b665d9484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:17 +0000
Subject: [PATCH 22/60] fix: decode CSA move comments as UTF-8

---
 cshogi/_cshogi.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 83330e1..b2260bf 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -1605,7 +1605,7 @@ cdef class Parser:
         :return: The list of comments for each move of the game.
         :rtype: list
         """
-        return [comment.decode('ascii') for comment in self.__parser.comments]
+        return [comment.decode('utf-8') for comment in self.__parser.comments]
 
     @property
     def win(self):
-- 
2.43.0


From 7bc5a19321c04da894de36a450093322177dcebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:48 +0000
Subject: [PATCH 23/60] =?UTF-8?q?fix:=20KIF=20reads=20an=20impasse=20(?=
 =?UTF-8?q?=E6=8C=81=E5=B0=86=E6=A3=8B)=20as=20%JISHOGI?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 cshogi/KIF.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 2c0244e..63506ec 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -278,6 +278,9 @@ class Parser:
                             else:
                                 win = WHITE_WIN
                                 endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                        elif m.group(2) == '持将棋':
+                            win = DRAW
+                            endgame = '%JISHOGI'
                         elif m.group(2) == '中断':
                             win = None
                             endgame = '%CHUDAN'
-- 
2.43.0


From 6031a3931ffff6dfc333fcf134c7795947053ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:48 +0000
Subject: [PATCH 24/60] fix: KIF reports a win by the opponent's foul as the
 opponent's ILLEGAL_ACTION

---
 cshogi/KIF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 63506ec..24d93bd 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -270,14 +270,14 @@ class Parser:
                                 endgame = '%ILLEGAL_MOVE'
                             else:
                                 win = BLACK_WIN
-                                endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                                endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                         elif win_side_str == '後' or win_side_str == '上':
                             if m.group(4) == '反則負け':
                                 win = BLACK_WIN
                                 endgame = '%ILLEGAL_MOVE'
                             else:
                                 win = WHITE_WIN
-                                endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                                endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                         elif m.group(2) == '持将棋':
                             win = DRAW
                             endgame = '%JISHOGI'
-- 
2.43.0


From 7531ee0c242a6a4fd22c2df3931b59dee62d81ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:48 +0000
Subject: [PATCH 25/60] fix: KI2 reports a win by the opponent's foul as the
 opponent's ILLEGAL_ACTION

---
 cshogi/KI2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 47f55a5..ee22705 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -225,14 +225,14 @@ class Parser:
                             endgame = '%ILLEGAL_MOVE'
                         else:
                             win = BLACK_WIN
-                            endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                            endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                     elif win_side_str == '後' or win_side_str == '上':
                         if m.group(4) == '反則負け':
                             win = BLACK_WIN
                             endgame = '%ILLEGAL_MOVE'
                         else:
                             win = WHITE_WIN
-                            endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                            endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                     elif m.group(2) == '持将棋':
                         win = DRAW
                         endgame = '%JISHOGI'
-- 
2.43.0


From ff85445df1943c3be59dc999fcc8fff664e4aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:48 +0000
Subject: [PATCH 26/60] fix: KI2 export names the right side and move count at
 the end of the game

---
 cshogi/KI2.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index ee22705..c8ffd7c 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -591,12 +591,14 @@ class Exporter:
         if reason == '%TORYO':
             self.kifu.write('まで{}手で{}の勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
         elif reason == '%JISHOGI':
-            self.kifu.write('まで{}手で持将棋\n'.format(self.board.move_number + 1))
+            self.kifu.write('まで{}手で持将棋\n'.format(self.board.move_number - 1))
         elif reason == '%KACHI':
             self.kifu.write('まで{}手で{}の入玉勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.BLACK else '後手'))
         elif reason == '%SENNICHITE':
             self.kifu.write('まで{}手で千日手\n'.format(self.board.move_number - 1))
         elif reason == '%+ILLEGAL_ACTION' or reason == '%-ILLEGAL_ACTION':
-            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
+            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.board.move_number - 1, '先手' if reason == '%-ILLEGAL_ACTION' else '後手'))
         elif reason == '%ILLEGAL_MOVE':
-            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
+            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.BLACK else '後手'))
+        elif reason == '%CHUDAN':
+            self.kifu.write('まで{}手で中断\n'.format(self.board.move_number - 1))
-- 
2.43.0


From fdf0e82f5fa92e6cdf192a3f32ac92d5e36ff47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:48 +0000
Subject: [PATCH 27/60] fix: KI2 keeps several comment lines of one move
 together

---
 cshogi/KI2.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index c8ffd7c..3f119b0 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -185,9 +185,13 @@ class Parser:
                     if len(moves) - len(comments) > 1:
                         comments.extend([None]*(len(moves) - len(comments) - 1))
                     if line[:2] == "**":
-                        comments.append(line[2:])
+                        comment = line[2:]
                     else:
-                        comments.append(line[1:])
+                        comment = line[1:]
+                    if len(comments) == len(moves):
+                        comments[-1] += "\n" + comment
+                    else:
+                        comments.append(comment)
                 else:
                     header_comments.append(line[1:])
             elif '：' in line:
-- 
2.43.0


From c261146aa87f7f0d283d0a3196f95e303655df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:48 +0000
Subject: [PATCH 28/60] fix: KIF export names the right side and move count at
 the end of the game

---
 cshogi/KIF.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 24d93bd..5d39f91 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -62,7 +62,7 @@ class ParserException(Exception):
 class Parser:
     """A class for parsing Japanese Shogi notation in KIF format."""
 
-    MOVE_RE = re.compile(r'\A *[0-9]+\s+(中断|投了|持将棋|千日手|詰み|切れ負け|反則勝ち|反則負け|(([１２３４５６７８９])([零一二三四五六七八九])|同　)([歩香桂銀金角飛玉と杏圭全馬龍])(打|(成?)\(([0-9])([0-9])\)))\s*(\( *([:0-9]+)/([:0-9]+)\))?.*\Z')
+    MOVE_RE = re.compile(r'\A *[0-9]+\s+(入玉勝ち|入玉宣言|中断|投了|持将棋|千日手|詰み|切れ負け|反則勝ち|反則負け|(([１２３４５６７８９])([零一二三四五六七八九])|同　)([歩香桂銀金角飛玉と杏圭全馬龍])(打|(成?)\(([0-9])([0-9])\)))\s*(\( *([:0-9]+)/([:0-9]+)\))?.*\Z')
 
     HANDYCAP_SFENS = {
         '平手': cshogi.STARTING_SFEN,
@@ -146,6 +146,7 @@ class Parser:
                 time = None
             if m.group(1) not in [
                     '入玉勝ち',
+                    '入玉宣言',
                     '中断',
                     '投了',
                     '持将棋',
@@ -415,6 +416,7 @@ class Exporter:
         self.kifu = open(path, 'w', encoding=enc)
         self.prev_move = None
         self.move_number = 1
+        self.turn = cshogi.BLACK
 
     def close(self):
         """Close the file."""
@@ -437,8 +439,11 @@ class Exporter:
                 board = handicap
             else:
                 board = Board(sfen=handicap[5:])
+            self.turn = board.turn
             self.kifu.write(board_to_bod(board) + '\n')
         else:
+            if Parser.HANDYCAP_SFENS.get(handicap):
+                self.turn = Board(Parser.HANDYCAP_SFENS[handicap]).turn
             self.kifu.write('手合割：' + handicap + '\n')
         self.kifu.write('先手：' + names[0] + '\n')
         self.kifu.write('後手：' + names[1] + '\n')
@@ -469,6 +474,7 @@ class Exporter:
             h_sum, m_sum, s_sum))
 
         self.move_number += 1
+        self.turn = cshogi.opponent(self.turn)
         self.prev_move = move
 
     def end(self, reason: str, sec: int = 0, sec_sum: int = 0):
@@ -502,17 +508,17 @@ class Exporter:
 
         # 結果出力
         if reason == 'resign':
-            self.kifu.write('まで{}手で{}の勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
+            self.kifu.write('まで{}手で{}の勝ち\n'.format(self.move_number - 1, '先手' if self.turn == cshogi.WHITE else '後手'))
         elif reason == 'draw':
-            self.kifu.write('まで{}手で持将棋\n'.format(self.move_number + 1))
+            self.kifu.write('まで{}手で持将棋\n'.format(self.move_number - 1))
         elif reason == 'win':
-            self.kifu.write('まで{}手で入玉宣言\n'.format(self.move_number - 1))
+            self.kifu.write('まで{}手で{}の入玉勝ち\n'.format(self.move_number - 1, '先手' if self.turn == cshogi.BLACK else '後手'))
         elif reason == 'sennichite':
             self.kifu.write('まで{}手で千日手\n'.format(self.move_number - 1))
         elif reason == 'illegal_win':
-            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
+            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.move_number - 1, '先手' if self.turn == cshogi.BLACK else '後手'))
         elif reason == 'illegal_lose':
-            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
+            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.turn == cshogi.BLACK else '後手'))
 
     def info(self, info):
         """Record additional information related to the game.
-- 
2.43.0


From 68ddfb5b151e3918b2b315d440dfbc94dab43b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:04 +0000
Subject: [PATCH 29/60] fix: KIF score comments in handicap games and for
 unsigned mate scores

---
 cshogi/KIF.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 5d39f91..a6dc477 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -525,7 +525,7 @@ class Exporter:
 
         :param info: A string containing additional information.
         """
-        turn = self.move_number % 2
+        turn = cshogi.opponent(self.turn)
         items = info.split(' ')
         comment = '**対局'
         i = 1
@@ -550,11 +550,11 @@ class Exporter:
                     comment += ' 評価値 {}'.format(items[i] if turn == cshogi.BLACK else -int(items[i]))
                 elif items[i] == 'mate':
                     i += 1
-                    if items[i][0:1] == '+':
+                    if items[i][0:1] != '-':
                         comment += ' +詰' if turn == cshogi.BLACK else ' -詰'
                     else:
                         comment += ' -詰' if turn == cshogi.BLACK else ' +詰'
-                    comment += str(items[i][1:])
+                    comment += items[i].lstrip('+-')
             else:
                 i += 1
         self.kifu.write(comment + '\n')
-- 
2.43.0


From 5dc1a3b46161c8f1dd37ee628c7150c60c11c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:29 +0000
Subject: [PATCH 30/60] fix: KI2 position marks do not pick a drop or a move
 straight back

---
 cshogi/KI2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 3f119b0..5dd22fa 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -98,6 +98,8 @@ class Parser:
                 candidates = [move for move in board.legal_moves if move_to(move) == to_square and (not move_is_drop(move) and move_from_piece_type(move) == piece_type or move_is_drop(move) and hand_piece_to_piece_type(move_drop_hand_piece(move)) == piece_type)]
 
                 if m.group(6) or m.group(7):
+                    # 駒の相対位置、動作は盤上の駒にのみ付く
+                    candidates = [move for move in candidates if not move_is_drop(move)]
                     from_file_min = from_rank_min = 9
                     from_file_max = from_rank_max = 0
                     for move in candidates:
@@ -122,7 +124,7 @@ class Parser:
                         else:
                             candidates = [move for move in candidates if move_from(move) // 9 == from_file_max]
                     elif m.group(6) == '直':
-                        candidates = [move for move in candidates if move_to(move) // 9 == move_from(move) // 9]
+                        candidates = [move for move in candidates if move_to(move) // 9 == move_from(move) // 9 and (move_from(move) > move_to(move)) == (board.turn == cshogi.BLACK)]
 
                     if m.group(7) == '上':
                         if board.turn == cshogi.BLACK:
-- 
2.43.0


From 2bfb5baf1cc4532c099fb655d10f213ac6925ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:29 +0000
Subject: [PATCH 31/60] fix: KI2 raises ParserException for a move that matches
 no or several legal moves

---
 cshogi/KI2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 5dd22fa..ad79d6e 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -148,7 +148,8 @@ class Parser:
 
                 if len(candidates) > 1:
                     candidates = [move for move in candidates if not move_is_drop(move)]
-                    assert len(candidates) == 1
+                if len(candidates) != 1:
+                    raise KIF.ParserException('Invalid move: ' + m.group(0))
                 move = candidates[0]
                 moves.append(move)
                 if board.is_legal(move):
-- 
2.43.0


From 8baac80256efb028180000e7f4801b822d7e83d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:03 +0000
Subject: [PATCH 32/60] fix: KI2 reads several moves on one line

---
 cshogi/KI2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index ad79d6e..23f3252 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -154,7 +154,7 @@ class Parser:
                 moves.append(move)
                 if board.is_legal(move):
                     board.push(move)
-                pos = m.end()
+                pos += m.end()
             else:
                 break
         return moves
-- 
2.43.0


From 6f38ff98c3d0d376e78e4b0418c44099e8ac8a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:03 +0000
Subject: [PATCH 33/60] fix: KI2 tells apart moves that only the notation of
 the others distinguishes

---
 cshogi/KI2.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 23f3252..044e094 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -66,19 +66,29 @@ class Parser:
         return result
 
     @staticmethod
-    def parse_move_str(line: str, board: Board):
-        """Parses a string of moves and applies them to a given board.
+    def normalize(line: str) -> str:
+        """Normalizes the kanji of kings and promoted pieces.
 
         :param line: String containing the moves in Japanese Shogi notation.
-        :param board: Board object to apply the moves to.
-        :return: A list of moves parsed from the line.
+        :return: The string with each piece written as a single kanji.
         """
-        # Normalize king/promoted kanji
         line = line.replace('王', '玉')
         line = line.replace('竜', '龍')
         line = line.replace('成銀', '全')
         line = line.replace('成桂', '圭')
         line = line.replace('成香', '杏')
+        return line
+
+    @staticmethod
+    def parse_move_str(line: str, board: Board):
+        """Parses a string of moves and applies them to a given board.
+
+        :param line: String containing the moves in Japanese Shogi notation.
+        :param board: Board object to apply the moves to.
+        :return: A list of moves parsed from the line.
+        """
+        # Normalize king/promoted kanji
+        line = Parser.normalize(line)
 
         moves = []
         pos = 0
@@ -148,6 +158,9 @@ class Parser:
 
                 if len(candidates) > 1:
                     candidates = [move for move in candidates if not move_is_drop(move)]
+                if len(candidates) > 1:
+                    # 動作だけで区別できる駒には相対位置が付かない
+                    candidates = [move for move in candidates if Parser.MOVE_RE.match(Parser.normalize(move_to_ki2(move, board))).groups()[4:] == m.groups()[4:]]
                 if len(candidates) != 1:
                     raise KIF.ParserException('Invalid move: ' + m.group(0))
                 move = candidates[0]
-- 
2.43.0


From 5f17533f17f3bdc94fc3d668995288f915dc7af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:23 +0000
Subject: [PATCH 34/60] fix: KIF and KI2 raise ParserException for malformed
 squares, times, hands and handicaps

---
 cshogi/KI2.py |  8 ++++++--
 cshogi/KIF.py | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 044e094..cf9f99c 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -98,9 +98,13 @@ class Parser:
                 piece_type = cshogi.PIECE_JAPANESE_SYMBOLS.index(m.group(5))
                 if m.group(2).rstrip('　') == '同':
                     # same position
+                    if board.peek() == cshogi.MOVE_NONE:
+                        raise KIF.ParserException('No previous move: ' + m.group(0))
                     to_square = move_to(board.peek())
                 else:
                     to_file = cshogi.NUMBER_JAPANESE_NUMBER_SYMBOLS.index(m.group(3)) - 1
+                    if m.group(4) == '零':
+                        raise KIF.ParserException('Invalid square: ' + m.group(0))
                     to_rank = cshogi.NUMBER_JAPANESE_KANJI_SYMBOLS.index(m.group(4)) - 1
                     to_square = to_rank + to_file * 9
 
@@ -229,9 +233,9 @@ class Parser:
                     # White's name
                     names[cshogi.WHITE] = value
                 elif key == '手合割': # teai wari
-                    sfen = Parser.HANDYCAP_SFENS[value]
+                    sfen = Parser.HANDYCAP_SFENS.get(value)
                     if sfen is None:
-                        raise KIF.ParserException('Cannot support handycap type "other"')
+                        raise KIF.ParserException('Cannot support handycap type "{}"'.format(value))
                     board.set_sfen(sfen)
                 else:
                     var_info[key] = value
diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index a6dc477..424b8f1 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -110,6 +110,8 @@ class Parser:
 
         result = {}
         for item in target.split('　'):
+            if item and (item[0] not in cshogi.HAND_PIECE_JAPANESE_SYMBOLS or item[1:] and item[1:] not in cshogi.NUMBER_JAPANESE_KANJI_SYMBOLS):
+                raise ParserException('Invalid pieces in hand')
             if len(item) == 1:
                 result[cshogi.PIECE_JAPANESE_SYMBOLS.index(item)] = 1
             elif len(item) == 2 or len(item) == 3:
@@ -141,6 +143,8 @@ class Parser:
             if m.group(11):
                 time = 0
                 for i, t in enumerate(reversed(m.group(11).split(':'))):
+                    if t == '':
+                        raise ParserException('Invalid time: ' + line)
                     time += int(t) * 60**i
             else:
                 time = None
@@ -159,9 +163,13 @@ class Parser:
                 piece_type = cshogi.PIECE_JAPANESE_SYMBOLS.index(m.group(5))
                 if m.group(2) == '同　':
                     # same position
+                    if board.peek() == cshogi.MOVE_NONE:
+                        raise ParserException('No previous move: ' + line)
                     to_square = move_to(board.peek())
                 else:
                     to_field = cshogi.NUMBER_JAPANESE_NUMBER_SYMBOLS.index(m.group(3)) - 1
+                    if m.group(4) == '零':
+                        raise ParserException('Invalid square: ' + line)
                     to_rank = cshogi.NUMBER_JAPANESE_KANJI_SYMBOLS.index(m.group(4)) - 1
                     to_square = to_rank + to_field * 9
 
@@ -171,6 +179,8 @@ class Parser:
                 else:
                     from_field = int(m.group(8)) - 1
                     from_rank = int(m.group(9)) - 1
+                    if from_field < 0 or from_rank < 0:
+                        raise ParserException('Invalid square: ' + line)
                     from_square = from_rank + from_field * 9
 
                     promotion = (m.group(7) == '成')
@@ -245,9 +255,9 @@ class Parser:
                     # Second player's pieces in hand
                     pieces_in_hand[cshogi.WHITE] == Parser.parse_pieces_in_hand(value)
                 elif key == '手合割': # teai wari
-                    sfen = Parser.HANDYCAP_SFENS[value]
+                    sfen = Parser.HANDYCAP_SFENS.get(value)
                     if sfen is None:
-                        raise ParserException('Cannot support handycap type "other"')
+                        raise ParserException('Cannot support handycap type "{}"'.format(value))
                     board.set_sfen(sfen)
                 else:
                     var_info[key] = value
-- 
2.43.0


From 69aa342d8325636ab3b048e8c648af8d98a0bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:23 +0000
Subject: [PATCH 35/60] fix: KIF and KI2 reject a handicap line after the first
 move

---
 cshogi/KI2.py | 2 ++
 cshogi/KIF.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index cf9f99c..a8b5c91 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -233,6 +233,8 @@ class Parser:
                     # White's name
                     names[cshogi.WHITE] = value
                 elif key == '手合割': # teai wari
+                    if moves:
+                        raise KIF.ParserException('Handycap after a move')
                     sfen = Parser.HANDYCAP_SFENS.get(value)
                     if sfen is None:
                         raise KIF.ParserException('Cannot support handycap type "{}"'.format(value))
diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 424b8f1..aaac2a1 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -255,6 +255,8 @@ class Parser:
                     # Second player's pieces in hand
                     pieces_in_hand[cshogi.WHITE] == Parser.parse_pieces_in_hand(value)
                 elif key == '手合割': # teai wari
+                    if moves:
+                        raise ParserException('Handycap after a move')
                     sfen = Parser.HANDYCAP_SFENS.get(value)
                     if sfen is None:
                         raise ParserException('Cannot support handycap type "{}"'.format(value))
-- 
2.43.0


From 025c8c3d7c5fb0470686103e109be967416cb9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 36/60] fix: raise EOFError when a USI engine closes its output

---
 cshogi/usi/Engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index f810001..f5df8e7 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -214,7 +214,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip()
             if line[:7] == b'id name':
@@ -241,7 +241,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip().decode(locale.getpreferredencoding())
             if listener:
@@ -280,7 +280,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip().decode('shift-jis')
             if listener:
@@ -354,7 +354,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip().decode(locale.getpreferredencoding())
             if listener:
@@ -386,7 +386,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip().decode(locale.getpreferredencoding())
             if listener:
-- 
2.43.0


From 4da26e99beade902da326b2b20d7e9f5ae9f04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 37/60] fix: do not block a USI engine that writes to its
 standard error

---
 cshogi/usi/Engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index f5df8e7..7ea4e0d 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -203,7 +203,7 @@ class Engine:
         """
         if self.debug: listener = print
         cwd = os.path.dirname(self.cmd)
-        self.proc = subprocess.Popen([self.cmd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd if cwd != '' else None)
+        self.proc = subprocess.Popen([self.cmd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd if cwd != '' else None)
 
         cmd = 'usi'
         if listener:
-- 
2.43.0


From 1eb9edba7df2a71712064aa14d8212a6dbb06961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 38/60] fix: info fields and mate scores of USI engines whose
 value is not a number

---
 cshogi/usi/Engine.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index 7ea4e0d..d406bc9 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -32,7 +32,7 @@ class InfoListener:
 
     @staticmethod
     def _split_info(m: re.Match) -> Dict:
-        items = m[1].strip().split(' ')
+        items = m[1].split()
         info_dict = {}
         while items:
             name = items.pop(0)
@@ -46,10 +46,15 @@ class InfoListener:
                 name = items.pop(0)
                 info_dict['score'] = name
 
+            elif name in ('lowerbound', 'upperbound'):
+                info_dict[name] = True
+                continue
+
+            value = items.pop(0)
             try:
-                info_dict[name] = int(items.pop(0))
+                info_dict[name] = int(value)
             except ValueError:
-                info_dict[name] = items.pop(0)
+                info_dict[name] = value
 
         info_dict['pv'] = (m[2] + m[3]).split(' ')
         return info_dict
@@ -117,9 +122,13 @@ class InfoListener:
                 mate = info['mate']
             else:
                 return None
-            if mate == '+' or mate > 0:
+            if mate == '+':
+                return self.__mate_score
+            elif mate == '-':
+                return -self.__mate_score
+            elif mate > 0:
                 return self.__mate_score
-            elif mate == '-' or mate <= 0:
+            else:
                 return -self.__mate_score
                 
     @property
-- 
2.43.0


From 084ae3908bc2e2845af1a04c45b129e9b81531cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 39/60] fix: PGN names a promoted knight +N

---
 cshogi/PGN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/PGN.py b/cshogi/PGN.py
index a967e24..4fd3310 100644
--- a/cshogi/PGN.py
+++ b/cshogi/PGN.py
@@ -21,7 +21,7 @@ PGN_HAND_PIECES = [
 PGN_PIECE_TYPES = [
     None,
     'P', 'L', 'N', 'S', 'B', 'R', 'G', 'K',
-    '+P', '+L', '+K', '+S', '+B', '+R',
+    '+P', '+L', '+N', '+S', '+B', '+R',
 ]
 
 def move_to_san(move):
-- 
2.43.0


From a497f507ef19430b10df9636d5ef25f176b0a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:45 +0000
Subject: [PATCH 40/60] fix: CSA ending of a match lost by perpetual check

---
 cshogi/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index f12c66b..ed99dac 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -445,7 +445,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         elif is_repetition_lose:
             win = opponent(board.turn)
             print('まで{}手で{}の反則負け'.format(board.move_number - 1, '先手' if win == WHITE else '後手'))
-            csa_endgame = 'ILLEGAL_MOVE'
+            csa_endgame = '%ILLEGAL_MOVE'
         elif is_timeup:
             win = opponent(board.turn)
             print('まで{}手で{}の切れ負け'.format(board.move_number - 1, '先手' if win == WHITE else '後手'))
-- 
2.43.0


From 075bfc658eec962b1896ca24155b93e14e28b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:27 +0000
Subject: [PATCH 41/60] fix: count the initial position of a match as its first
 occurrence

---
 cshogi/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index ed99dac..32a8055 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -235,6 +235,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         moves = []
         usi_moves = []
         repetition_hash = defaultdict(int)
+        repetition_hash[board.zobrist_hash()] += 1
         if csa:
             engine_names = [engine.name for engine in engines_order]
             if not multi_csa:
-- 
2.43.0


From bf41b92f90e3f62b03b54d911b823bd71a6695fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:27 +0000
Subject: [PATCH 42/60] fix: record the last move of a match ended by mate_win,
 and require it to be legal

---
 cshogi/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 32a8055..e94b328 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -353,11 +353,12 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
 
             # 詰みを見つけたら終了
             if mate_win:
-                if score is not None and score == 100000:
-                    move = board.move_from_usi(bestmove)
+                move = board.move_from_usi(bestmove)
+                if score is not None and score == 100000 and board.is_legal(move):
                     if csa:
                         csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, listener.info))
                     board.push(move)
+                    moves.append(move)
                     is_game_over = True
                     break
 
-- 
2.43.0


From 55967b0c02855e4cdd3d99d6f4ece1b4adb7e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:27 +0000
Subject: [PATCH 43/60] fix: keep the search information of a pondering engine
 apart from its opponent's

---
 cshogi/cli.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index e94b328..39a0ebc 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -159,7 +159,8 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             def __call__(self, line):
                 self.info = self.bestmove
                 self.bestmove = line
-        listener1 = listener2 = Listener()
+        listener1 = Listener()
+        listener2 = Listener()
 
     # CSA
     if csa and multi_csa:
@@ -338,12 +339,14 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                         is_game_over = True
                         break
 
+            info = listener.info
+
             # ponder
             if ponder and pondermove:
                 engine.position(usi_moves + [bestmove, pondermove], listener=listener)
                 feature = executor.submit(engine.go, ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
 
-            score = usi_info_to_score(listener.info)
+            score = usi_info_to_score(info)
             # 投了閾値
             if resign is not None:
                 if score is not None and score <= -resign:
@@ -356,7 +359,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 move = board.move_from_usi(bestmove)
                 if score is not None and score == 100000 and board.is_legal(move):
                     if csa:
-                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, listener.info))
+                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, info))
                     board.push(move)
                     moves.append(move)
                     is_game_over = True
@@ -375,7 +378,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 move = board.move_from_usi(bestmove)
                 if board.is_legal(move):
                     if csa:
-                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, listener.info))
+                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, info))
                     board.push(move)
                     moves.append(move)
                     usi_moves.append(bestmove)
-- 
2.43.0


From f8a6b228b72036c111f334588a5039e3373fd942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:11 +0000
Subject: [PATCH 44/60] fix: to_bod after a pass raises and leaves the board
 one ply back

---
 cshogi/_cshogi.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index b2260bf..5deca16 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -1097,7 +1097,7 @@ cdef class Board:
 
     def _repr_svg_(self):
         cdef int move = self.__board.peek()
-        if move == 0:
+        if move_from(move) == move_to(move):
             return self.to_svg()
         else:
             return self.to_svg(move)
@@ -1110,7 +1110,7 @@ cdef class Board:
         """
         import cshogi.KIF
         history = self.history
-        if len(history) > 0:
+        if len(history) > 0 and move_from(history[-1]) != move_to(history[-1]):
             move = self.pop()
             move_str = '\n手数＝' + str(self.move_number) + '　' + cshogi.KIF.move_to_bod(move, self) + '　まで'
             self.push(move)
-- 
2.43.0


From 1e96be098e30bea8f00a707187136d906321090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:11 +0000
Subject: [PATCH 45/60] fix: PGN move text of a game without moves ends with
 its result

---
 cshogi/PGN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/PGN.py b/cshogi/PGN.py
index 4fd3310..312c9b5 100644
--- a/cshogi/PGN.py
+++ b/cshogi/PGN.py
@@ -92,7 +92,7 @@ class Exporter:
 
         :param moves: List of moves in the game.
         """
-        line = ''
+        line = self.result_str if len(moves) == 0 else ''
         for i, move in enumerate(moves):
             if i % 2 == 0:
                 part = str(i // 2 + 1) + '. '
-- 
2.43.0


From 837e4b88963bf56af475020432899e14e4c887ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:11 +0000
Subject: [PATCH 46/60] fix: stop the engines of a match that still ponder when
 the game ends

---
 cshogi/cli.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 39a0ebc..5507456 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -280,6 +280,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         pre_pondermove = None
         feature = None
         pre_feature = None
+        ponder_features = [None, None]
         while not is_game_over:
             engine_index = (board.move_number - 1) % 2
             engine = engines_order[engine_index]
@@ -345,6 +346,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             if ponder and pondermove:
                 engine.position(usi_moves + [bestmove, pondermove], listener=listener)
                 feature = executor.submit(engine.go, ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
+                ponder_features[engine_index] = feature
 
             score = usi_info_to_score(info)
             # 投了閾値
@@ -417,6 +419,12 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 is_game_over = True
                 break
 
+        # ponder終了
+        for engine, listener, feature in zip(engines_order, listeners_order, ponder_features):
+            if feature is not None and not feature.done():
+                engine.stop(listener=listener)
+                feature.result()
+
         # ゲーム終了
         for engine, listener in zip(engines_order, listeners_order):
             engine.gameover(listener=listener)
-- 
2.43.0


From 6589d77add2b10542e8542689b84b0825b7408f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:11 +0000
Subject: [PATCH 47/60] fix: time control of a match in the web viewer

---
 cshogi/web/app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 8dd8c7b..96f9d7c 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -136,8 +136,8 @@ def match(moves, engine1=None, engine2=None, options1={}, options2={}, names=Non
         elapsed_time = perf_counter() - start_time
 
         if remain_time[board.turn] is not None:
-            if inc_time[board.turn] is not None:
-                remain_time[board.turn] += inc_time[board.turn]
+            if inc is not None:
+                remain_time[board.turn] += inc
             remain_time[board.turn] -= math.ceil(elapsed_time * 1000)
 
         if bestmove == 'resign':
-- 
2.43.0


From 187673cd623db0011336cb49d57383ff00d00303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:11 +0000
Subject: [PATCH 48/60] fix: CSA ending of a match in the web viewer lost by
 perpetual check

---
 cshogi/web/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 96f9d7c..3b82c70 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -218,7 +218,7 @@ def match(moves, engine1=None, engine2=None, options1={}, options2={}, names=Non
     elif is_repetition_lose:
         win = opponent(board.turn)
         result = '{}の反則負け'.format('先手' if win == WHITE else '後手')
-        csa_endgame = 'ILLEGAL_MOVE'
+        csa_endgame = '%ILLEGAL_MOVE'
     elif is_timeup:
         win = opponent(board.turn)
         result = '{}の切れ負け'.format('先手' if win == WHITE else '後手')
-- 
2.43.0


From 273422eea0271c4288c6419c8b9ee529cd134d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:11 +0000
Subject: [PATCH 49/60] fix: count the initial position of a match in the web
 viewer as its first occurrence

---
 cshogi/web/app.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 3b82c70..b3b8d1b 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -97,6 +97,7 @@ def match(moves, engine1=None, engine2=None, options1={}, options2={}, names=Non
     board = Board()
     usi_moves = []
     repetition_hash = defaultdict(int)
+    repetition_hash[board.zobrist_hash()] += 1
 
     # 新規ゲーム
     for engine in engines:
-- 
2.43.0


From eeb406b416e87cc48f922faab2f9296dfa52de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:11 +0000
Subject: [PATCH 50/60] fix: show CSA records without moves in the web viewer

---
 cshogi/web/app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index b3b8d1b..ce92b42 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -305,8 +305,8 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
                 'pv': ' '.join(pv),
                 })
         moves.append({
-            'number': i + 2,
-            'kif_move': TURN_SYMBOLS[(i + 1) % 2] + CSA.JAPANESE_END_GAMES[kif.endgame],
+            'number': len(kif.moves) + 1,
+            'kif_move': TURN_SYMBOLS[len(kif.moves) % 2] + CSA.JAPANESE_END_GAMES[kif.endgame],
             'time': 0,
             'move': 0,
             'eval': 'null',
-- 
2.43.0


From 48b74d1a2255ac17373bd73ec30cfa27d6e4d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:20 +0000
Subject: [PATCH 51/60] fix: do not overtake the go command of a pondering
 engine with stop or ponderhit

---
 cshogi/cli.py        | 3 ++-
 cshogi/usi/Engine.py | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 5507456..c96bbb9 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -345,7 +345,8 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             # ponder
             if ponder and pondermove:
                 engine.position(usi_moves + [bestmove, pondermove], listener=listener)
-                feature = executor.submit(engine.go, ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
+                engine._send_go(True, remain_time[BLACK], remain_time[WHITE], byoyomi, binc, winc, None, listener)
+                feature = executor.submit(engine._wait_bestmove, listener)
                 ponder_features[engine_index] = feature
 
             score = usi_info_to_score(info)
diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index d406bc9..5f23f3e 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -338,6 +338,10 @@ class Engine:
         :param listener: Optional callback to handle engine responses.
         :return: The best move found and optional ponder move.
         """
+        self._send_go(ponder, btime, wtime, byoyomi, binc, winc, nodes, listener)
+        return self._wait_bestmove(listener)
+
+    def _send_go(self, ponder: bool, btime: Optional[int], wtime: Optional[int], byoyomi: Optional[int], binc: Optional[int], winc: Optional[int], nodes: Optional[int], listener: Optional[Callable]):
         if self.debug: listener = print
         cmd = 'go'
         if ponder:
@@ -360,6 +364,8 @@ class Engine:
         self.proc.stdin.write(cmd.encode('ascii') + b'\n')
         self.proc.stdin.flush()
 
+    def _wait_bestmove(self, listener: Optional[Callable]) -> Tuple[str, Optional[str]]:
+        if self.debug: listener = print
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-- 
2.43.0


From 7dba3e10a22838ddb2e7efe16bc996f00cab3193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:06 +0000
Subject: [PATCH 52/60] fix: show CSA records with any or no ending in the web
 viewer

---
 cshogi/web/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index ce92b42..2cc49a0 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -306,7 +306,7 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
                 })
         moves.append({
             'number': len(kif.moves) + 1,
-            'kif_move': TURN_SYMBOLS[len(kif.moves) % 2] + CSA.JAPANESE_END_GAMES[kif.endgame],
+            'kif_move': TURN_SYMBOLS[len(kif.moves) % 2] + CSA.JAPANESE_END_GAMES.get(kif.endgame, kif.endgame),
             'time': 0,
             'move': 0,
             'eval': 'null',
-- 
2.43.0


From 95402049dbbdcadd7676a8ec995881f737e90575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:09 +0000
Subject: [PATCH 53/60] fix: board diagrams drop the piece of a recapture
 written without a space

---
 cshogi/KIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index aaac2a1..0488a00 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -402,7 +402,7 @@ def move_to_bod(move: int, board: Board) -> str:
     move_str = cshogi.KI2.move_to_ki2(move, board)
     if move_str[1] == '同':
         to_sq = cshogi.move_to(move)
-        return move_str[0] + KIFU_TO_SQUARE_NAMES[to_sq] + '同' + move_str[3:]
+        return move_str[0] + KIFU_TO_SQUARE_NAMES[to_sq] + '同' + move_str[2:].lstrip('　')
     else:
         return move_str
 
-- 
2.43.0


From 058f64a3fbbd1f1a2023c48b8e47c610e22d3ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:48 +0000
Subject: [PATCH 54/60] =?UTF-8?q?fix:=20KI2=20writes=20=E5=90=8C=20for=20a?=
 =?UTF-8?q?=20move=20to=201b=20after=20a=20pass?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 cshogi/KI2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index a8b5c91..bfc7ea0 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -307,7 +307,7 @@ def move_to_ki2(move: int, board: Board) -> str:
     to_square = move_to(move)
     kifu_to = KIF.KIFU_TO_SQUARE_NAMES[to_square]
     if board.peek() != cshogi.MOVE_NONE:
-        if move_to(board.peek()) == to_square:
+        if move_to(board.peek()) == to_square != move_from(board.peek()):
             kifu_to = "同"
     if not move_is_drop(move):
         relative = '' # 駒の相対位置
-- 
2.43.0


From f729392a864c2227ae60314f38e558d67755a3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 55/60] fix: OslDfPn.stop did not end a search: the root loop
 went on through its remaining node limits

---
 src/osl_dfpn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osl_dfpn.cpp b/src/osl_dfpn.cpp
index 3e3640d..ca58256 100644
--- a/src/osl_dfpn.cpp
+++ b/src/osl_dfpn.cpp
@@ -10182,7 +10182,7 @@ bool OslDfPn::dfpn(Position& pos) {
         if (stop_after_limit != 0 && ctx.node_limit == stop_after_limit) {
             break;
         }
-        if (result.isFinal() || result.isLoopDetection() || limit >= impl_->max_search_node) {
+        if (result.isFinal() || result.isLoopDetection() || limit >= impl_->max_search_node || impl_->stop) {
             break;
         }
         limit = next_root_search_limit(limit, impl_->max_search_node);
-- 
2.43.0


From 8434f7b6875b702af295eb4ab5775d731183391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:23 +0000
Subject: [PATCH 56/60] fix: is_mate with a ply below 2 recursed without bound

---
 cshogi/_cshogi.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 5deca16..b99ceae 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -868,12 +868,13 @@ cdef class Board:
     def is_mate(self, int ply):
         """Checks if a mate condition is met in a given number of ply.
 
-        :param ply: even integer representing the number of ply.
+        :param ply: even integer, should be greater or equal to 2, representing the number of ply.
         :type ply: int
         :return: True if mate, False otherwise.
         :rtype: bool
         """
         assert ply % 2 == 0
+        assert ply >= 2
         return self.__board.inCheck() and self.__board.is_mate(ply)
 
     def zobrist_hash(self):
-- 
2.43.0


From 223c27143aadb336ba82f4dea4845fb8edcff6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:07 +0000
Subject: [PATCH 57/60] fix: /move of the web viewer knew the human side only
 by the name Human

---
 cshogi/web/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 2cc49a0..1e19770 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -340,7 +340,7 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
         human_input['number'] = int(request.args.get('number', default=0))
         time.sleep(0.2)
         human = ''
-        if names[len(moves) % 2] == 'Human':
+        if humans[len(moves) % 2]:
             human = 'black' if len(moves) % 2 == 0 else 'white'
         return { 'names': list(names), 'moves': list(moves), 'human':human }
 
-- 
2.43.0


From e5944c939bc93e7d83fd0f9cb266490da95034dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:07 +0000
Subject: [PATCH 58/60] fix: a move sent to the web viewer for another ply
 could be played

---
 cshogi/web/app.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 1e19770..dbe55c9 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -32,7 +32,7 @@ class Human:
     def go(self, ponder=False, btime=None, wtime=None, byoyomi=None, binc=None, winc=None, nodes=None, listener=None):
         import time
         while True:
-            human_input = dict(self.human_input)
+            human_input = self.human_input.copy()
             if human_input['number'] == self.board.move_number:
                 usi_move = human_input['move']
                 move = self.board.move_from_usi(usi_move)
@@ -336,8 +336,7 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
     @app.route("/move")
     def human_move():
         import time
-        human_input['move'] = request.args.get('move')
-        human_input['number'] = int(request.args.get('number', default=0))
+        human_input.update({ 'number': int(request.args.get('number', default=0)), 'move': request.args.get('move') })
         time.sleep(0.2)
         human = ''
         if humans[len(moves) % 2]:
-- 
2.43.0


From 2d1f5cc233ec93a178a08845cfa65e2491b821d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:03 +0000
Subject: [PATCH 59/60] fix: the web viewer took the human side and the moves
 from different moments of the game

---
 cshogi/web/app.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index dbe55c9..364d225 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -315,33 +315,37 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
 
     app = Flask(__name__)
 
+    def human_turn(moves):
+        # 終局していない場合、手番が人間ならその色
+        if len(moves) > 0 and moves[-1]['move'] == 0:
+            return ''
+        if humans[len(moves) % 2]:
+            return 'black' if len(moves) % 2 == 0 else 'white'
+        return ''
+
     @app.route("/")
     def init_board():
         autoupdate = 'false'
         human = ''
+        current_moves = list(moves)
         if is_match == 'true':
             if match_proc.is_alive():
                 autoupdate = request.args.get('autoupdate', default=auto_update)
-                if humans[len(moves) % 2]:
-                    human = 'black' if len(moves) % 2 == 0 else 'white'
-        return render_template('board.html', names=names, moves=moves, is_match=is_match, autoupdate=autoupdate, human=human)
+                human = human_turn(current_moves)
+        return render_template('board.html', names=names, moves=current_moves, is_match=is_match, autoupdate=autoupdate, human=human)
 
     @app.route("/update")
     def update():
-        human = ''
-        if humans[len(moves) % 2]:
-            human = 'black' if len(moves) % 2 == 0 else 'white'
-        return { 'names': list(names), 'moves': list(moves), 'human':human }
+        current_moves = list(moves)
+        return { 'names': list(names), 'moves': current_moves, 'human': human_turn(current_moves) }
 
     @app.route("/move")
     def human_move():
         import time
         human_input.update({ 'number': int(request.args.get('number', default=0)), 'move': request.args.get('move') })
         time.sleep(0.2)
-        human = ''
-        if humans[len(moves) % 2]:
-            human = 'black' if len(moves) % 2 == 0 else 'white'
-        return { 'names': list(names), 'moves': list(moves), 'human':human }
+        current_moves = list(moves)
+        return { 'names': list(names), 'moves': current_moves, 'human': human_turn(current_moves) }
 
     server = make_server(host, port, app)
     server.serve_forever()
-- 
2.43.0


From 8fdd426740b3b20be8f425b47ccd4a9ee0ca869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:50 +0000
Subject: [PATCH 60/60] fix: Position::isOK raced on a static key when called
 from several threads

---
 src/position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position.cpp b/src/position.cpp
index 552bde3..ac7e460 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3170,7 +3170,7 @@ void Position::toPackedSfen(u8* data) const {
 }
 
 bool Position::isOK() const {
-    static Key prevKey;
+    static thread_local Key prevKey;
     const bool debugAll = true;
 
     const bool debugBitboards    = debugAll || false;
-- 
2.43.0

