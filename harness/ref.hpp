// Independent reference model of shogi (mailbox board, no bitboards, no tables, nothing
// shared with /repo).  It is the oracle the monitors compare the real code with.
#pragma once
#include <array>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace ref {

// piece types, numbered as the public API numbers them
enum { NONE = 0, P = 1, L, N, S, B, R, G, K, PP, PL, PN, PS, PB, PR };
enum { BLACK = 0, WHITE = 1 };
// squares: file*9+rank, file 0 is "1", rank 0 is "a"
inline int sqOf(int f, int r) { return f * 9 + r; }
inline int fileOf(int s) { return s / 9; }
inline int rankOf(int s) { return s % 9; }
inline bool onBoard(int f, int r) { return f >= 0 && f < 9 && r >= 0 && r < 9; }
inline int mk(int c, int t) { return t + (c == WHITE ? 16 : 0); }
inline int typeOf(int p) { return p & 15; }
inline int colorOf(int p) { return p >= 16 ? WHITE : BLACK; }
inline int demote(int t) { return t > K ? t - 8 : t; }
inline bool promotable(int t) { return t >= P && t <= R; }
// hand order of the public API: P L N S G B R
static const int HAND_TYPE[7] = { P, L, N, S, G, B, R };
inline int handIdx(int t) { for (int i = 0; i < 7; i++) if (HAND_TYPE[i] == t) return i; return -1; }
static const int MAXCNT[7] = { 18, 4, 4, 4, 4, 2, 2 };

struct Move {
    int from = -1;      // -1: drop
    int to = 0;
    bool promo = false;
    int pt = 0;         // type of the moving piece before the move / type dropped
    int cap = 0;        // type captured (as it stood on the board), 0 if none
    bool operator==(const Move& o) const { return from == o.from && to == o.to && promo == o.promo && pt == o.pt && cap == o.cap; }
    bool operator<(const Move& o) const {
        return std::tie(from, to, promo, pt, cap) < std::tie(o.from, o.to, o.promo, o.pt, o.cap);
    }
};

inline std::string sqStr(int s) { return std::string(1, char('1' + fileOf(s))) + char('a' + rankOf(s)); }
inline std::string usi(const Move& m) {
    static const char* L_ = " PLNSBRGK";
    if (m.from < 0) return std::string(1, L_[m.pt]) + "*" + sqStr(m.to);
    return sqStr(m.from) + sqStr(m.to) + (m.promo ? "+" : "");
}

struct Pos {
    int bd[81];
    int hand[2][7];
    int turn = BLACK;
    int ply = 1;
    Pos() { std::memset(bd, 0, sizeof bd); std::memset(hand, 0, sizeof hand); }

    int king(int c) const { for (int i = 0; i < 81; i++) if (bd[i] == mk(c, K)) return i; return -1; }
    bool sameBoard(const Pos& o) const { return !std::memcmp(bd, o.bd, sizeof bd); }
    bool samePlacement(const Pos& o) const { return sameBoard(o) && !std::memcmp(hand, o.hand, sizeof hand) && turn == o.turn; }

    // does the piece standing on s attack square t (occupancy = current board)?
    bool attacks(int s, int t) const {
        const int p = bd[s]; if (!p || s == t) return false;
        const int c = colorOf(p), ty = typeOf(p);
        // normalise to black's view: up = -rank
        int df = fileOf(t) - fileOf(s), dr = rankOf(t) - rankOf(s);
        if (c == WHITE) { df = -df; dr = -dr; }
        const int af = std::abs(df), ar = std::abs(dr);
        auto clear = [&]() {
            int sf = (fileOf(t) > fileOf(s)) - (fileOf(t) < fileOf(s));
            int sr = (rankOf(t) > rankOf(s)) - (rankOf(t) < rankOf(s));
            int f = fileOf(s) + sf, r = rankOf(s) + sr;
            while (f != fileOf(t) || r != rankOf(t)) { if (bd[sqOf(f, r)]) return false; f += sf; r += sr; }
            return true;
        };
        switch (ty) {
        case P: return df == 0 && dr == -1;
        case L: return df == 0 && dr < 0 && clear();
        case N: return af == 1 && dr == -2;
        case S: return (dr == -1 && af <= 1) || (dr == 1 && af == 1);
        case G: case PP: case PL: case PN: case PS:
            return (dr == -1 && af <= 1) || (dr == 0 && af == 1) || (dr == 1 && af == 0);
        case K: return af <= 1 && ar <= 1;
        case B: return af == ar && clear();
        case PB: return (af == ar && clear()) || (af <= 1 && ar <= 1);
        case R: return (df == 0 || dr == 0) && clear();
        case PR: return ((df == 0 || dr == 0) && clear()) || (af <= 1 && ar <= 1);
        }
        return false;
    }
    int attackerCount(int t, int by) const {
        int n = 0;
        for (int s = 0; s < 81; s++) if (bd[s] && colorOf(bd[s]) == by && attacks(s, t)) n++;
        return n;
    }
    bool attacked(int t, int by) const {
        for (int s = 0; s < 81; s++) if (bd[s] && colorOf(bd[s]) == by && attacks(s, t)) return true;
        return false;
    }
    bool inCheck(int c) const { int k = king(c); return k >= 0 && attacked(k, c ^ 1); }
    bool inCheck() const { return inCheck(turn); }

    void apply(const Move& m) {
        if (m.from < 0) {
            bd[m.to] = mk(turn, m.pt);
            hand[turn][handIdx(m.pt)]--;
        } else {
            int cap = bd[m.to];
            if (cap && typeOf(cap) != K) hand[turn][handIdx(demote(typeOf(cap)))]++;
            bd[m.from] = 0;
            bd[m.to] = mk(turn, m.promo ? m.pt + 8 : m.pt);
        }
        turn ^= 1; ply++;
    }
    Pos after(const Move& m) const { Pos q = *this; q.apply(m); return q; }

    static bool inZone(int c, int s) { int r = rankOf(s); return c == BLACK ? r <= 2 : r >= 6; }
    // an unpromoted piece of type t of colour c could never move from s
    static bool deadEnd(int c, int t, int s) {
        int r = c == BLACK ? rankOf(s) : 8 - rankOf(s);
        if (t == P || t == L) return r == 0;
        if (t == N) return r <= 1;
        return false;
    }
    bool hasPawnOnFile(int c, int f) const {
        for (int r = 0; r < 9; r++) if (bd[sqOf(f, r)] == mk(c, P)) return true;
        return false;
    }
    // moves obeying piece movement, promotion, dead-end, nifu; own king safety and drop-pawn mate not considered
    void pseudo(std::vector<Move>& out) const {
        for (int s = 0; s < 81; s++) {
            if (!bd[s] || colorOf(bd[s]) != turn) continue;
            const int t = typeOf(bd[s]);
            for (int d = 0; d < 81; d++) {
                if (bd[d] && colorOf(bd[d]) == turn) continue;
                if (bd[d] && typeOf(bd[d]) == K) continue;
                if (!attacks(s, d)) continue;
                Move m; m.from = s; m.to = d; m.pt = t; m.cap = bd[d] ? typeOf(bd[d]) : 0;
                if (!deadEnd(turn, t, d)) out.push_back(m);
                if (promotable(t) && (inZone(turn, s) || inZone(turn, d))) { m.promo = true; out.push_back(m); }
            }
        }
        for (int h = 0; h < 7; h++) {
            if (hand[turn][h] <= 0) continue;
            const int t = HAND_TYPE[h];
            for (int d = 0; d < 81; d++) {
                if (bd[d] || deadEnd(turn, t, d)) continue;
                if (t == P && hasPawnOnFile(turn, fileOf(d))) continue;
                Move m; m.to = d; m.pt = t; out.push_back(m);
            }
        }
    }
    bool safe(const Move& m) const { Pos q = after(m); return !q.inCheck(turn); }
    bool anyLegal() const {   // pawn-drop mate cannot matter here: used on the side in check by a pawn, or recursion-safe
        std::vector<Move> v; pseudo(v);
        for (auto& m : v) if (safe(m) && !dropPawnMate(m)) return true;
        return false;
    }
    bool dropPawnMate(const Move& m) const {
        if (m.from >= 0 || m.pt != P) return false;
        Pos q = after(m);
        if (!q.inCheck()) return false;
        // opponent's replies: a contact check by a pawn cannot be answered by a drop, so no recursion
        std::vector<Move> v; q.pseudo(v);
        for (auto& r : v) if (r.from >= 0 && q.safe(r)) return false;
        return true;
    }
    bool legal(const Move& m) const { return safe(m) && !dropPawnMate(m); }
    std::vector<Move> legalMoves() const {
        std::vector<Move> v, o; pseudo(v);
        for (auto& m : v) if (legal(m)) o.push_back(m);
        return o;
    }
    bool isMate() const { return inCheck() && !anyLegal(); }

    std::string sfen(bool withPly = true) const {
        static const char* L_ = " PLNSBRGKPLNSBR";
        std::string o;
        for (int r = 0; r < 9; r++) {
            int e = 0;
            for (int f = 8; f >= 0; f--) {
                int p = bd[sqOf(f, r)];
                if (!p) { e++; continue; }
                if (e) { o += char('0' + e); e = 0; }
                if (typeOf(p) > K) o += '+';
                char ch = L_[typeOf(p)];
                o += colorOf(p) == BLACK ? ch : char(ch - 'A' + 'a');
            }
            if (e) o += char('0' + e);
            if (r < 8) o += '/';
        }
        o += turn == BLACK ? " b " : " w ";
        static const int ord[7] = { 6, 5, 4, 3, 2, 1, 0 };   // R B G S N L P
        std::string h;
        for (int c = 0; c < 2; c++)
            for (int i : ord) {
                int n = hand[c][i]; if (!n) continue;
                if (n > 1) h += std::to_string(n);
                char ch = L_[HAND_TYPE[i]];
                h += c == BLACK ? ch : char(ch - 'A' + 'a');
            }
        o += h.empty() ? "-" : h;
        if (withPly) o += " " + std::to_string(ply);
        return o;
    }
    static int letterType(char c) {
        switch (c & ~0x20) { case 'P': return P; case 'L': return L; case 'N': return N; case 'S': return S;
        case 'B': return B; case 'R': return R; case 'G': return G; case 'K': return K; }
        return 0;
    }
    static bool parse(const std::string& sfen, Pos& q) {
        q = Pos();
        std::istringstream is(sfen); std::string b, t, h, n;
        is >> b >> t >> h >> n;
        int f = 8, r = 0; bool pro = false;
        for (char c : b) {
            if (c == '/') { if (f != -1) return false; f = 8; if (++r > 8) return false; }
            else if (c >= '1' && c <= '9') { f -= c - '0'; if (f < -1) return false; }
            else if (c == '+') pro = true;
            else { int ty = letterType(c); if (!ty || f < 0) return false; if (pro) ty += 8; pro = false;
                q.bd[sqOf(f, r)] = mk(c >= 'a' ? WHITE : BLACK, ty); f--; }
        }
        if (r != 8 || f != -1) return false;
        q.turn = t == "w" ? WHITE : BLACK;
        int k = 0;
        if (h != "-") for (char c : h) {
            if (c >= '0' && c <= '9') k = k * 10 + c - '0';
            else { int ty = letterType(c), i = handIdx(ty); if (i < 0) return false; q.hand[c >= 'a'][i] += k ? k : 1; k = 0; }
        }
        q.ply = n.empty() ? 1 : std::atoi(n.c_str());
        return true;
    }
    Pos rotated() const {
        Pos q;
        for (int s = 0; s < 81; s++) if (bd[s]) q.bd[80 - s] = mk(colorOf(bd[s]) ^ 1, typeOf(bd[s]));
        for (int i = 0; i < 7; i++) { q.hand[0][i] = hand[1][i]; q.hand[1][i] = hand[0][i]; }
        q.turn = turn ^ 1; q.ply = ply;
        return q;
    }
    // 27-point declaration rule (CSA), for the side to move
    bool declareWin() const {
        const int k = king(turn);
        if (k < 0 || !inZone(turn, k)) return false;
        if (inCheck()) return false;
        int n = 0, pt = 0;
        for (int s = 0; s < 81; s++) {
            if (!bd[s] || colorOf(bd[s]) != turn || !inZone(turn, s) || typeOf(bd[s]) == K) continue;
            n++; int d = demote(typeOf(bd[s])); pt += (d == R || d == B) ? 5 : 1;
        }
        for (int i = 0; i < 7; i++) pt += hand[turn][i] * ((HAND_TYPE[i] == R || HAND_TYPE[i] == B) ? 5 : 1);
        return n >= 10 && pt >= (turn == BLACK ? 28 : 27);
    }
    // structural validity of a set-up position: both kings, piece counts, no nifu, no dead ends, side not to move not in check
    bool valid() const {
        int cnt[7] = {}; int kings[2] = {};
        for (int s = 0; s < 81; s++) if (bd[s]) {
            int t = typeOf(bd[s]), c = colorOf(bd[s]);
            if (t == K) { kings[c]++; continue; }
            cnt[handIdx(demote(t))]++;
            if (t <= K && deadEnd(c, t, s)) return false;
        }
        for (int i = 0; i < 7; i++) if (cnt[i] + hand[0][i] + hand[1][i] > MAXCNT[i]) return false;
        if (kings[0] != 1 || kings[1] != 1) return false;
        for (int c = 0; c < 2; c++) for (int f = 0; f < 9; f++) {
            int n = 0; for (int r = 0; r < 9; r++) n += bd[sqOf(f, r)] == mk(c, P);
            if (n > 1) return false;
        }
        return !inCheck(turn ^ 1);
    }
    bool full() const {   // all 40 pieces present (what the packed codecs require)
        int cnt[7] = {};
        for (int s = 0; s < 81; s++) if (bd[s] && typeOf(bd[s]) != K) cnt[handIdx(demote(typeOf(bd[s])))]++;
        for (int i = 0; i < 7; i++) if (cnt[i] + hand[0][i] + hand[1][i] != MAXCNT[i]) return false;
        return true;
    }
};

static const char* const START = "lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1";

// encode a reference move the way the public move integer is documented
inline int encode(const Move& m) {
    int v = m.to;
    if (m.from < 0) return v | ((80 + m.pt) << 7);
    return v | (m.from << 7) | (m.promo ? 1 << 14 : 0) | (m.pt << 16) | (m.cap << 20);
}

// ---------------------------------------------------------------- workloads
struct Rng {
    std::mt19937_64 g;
    explicit Rng(uint64_t s) : g(s) {}
    uint64_t u() { return g(); }
    int below(int n) { return n <= 1 ? 0 : int(g() % uint64_t(n)); }
    bool chance(int pct) { return below(100) < pct; }
};

// a random set-up position: all 40 pieces (or fewer when sparse) spread over board and hands
inline Pos randomSetup(Rng& r, bool allPieces = true) {
    for (;;) {
        Pos q;
        q.turn = r.below(2);
        q.ply = 1 + r.below(300);
        const int mode = r.below(8);
        int handPct = mode == 0 ? 90 : mode == 1 ? 5 : mode == 2 ? 70 : 40;
        int promoPct = r.below(3) == 0 ? 70 : 30;
        int kb = r.below(81), kw = r.below(81);
        if (mode == 3) { kb = sqOf(r.below(9), r.below(3)); }
        if (mode == 4) { kw = sqOf(r.below(9), 6 + r.below(3)); kb = sqOf(r.below(9), r.below(3)); }
        if (kb == kw) continue;
        q.bd[kb] = mk(BLACK, K); q.bd[kw] = mk(WHITE, K);
        bool bad = false;
        for (int i = 0; i < 7 && !bad; i++) for (int k = 0; k < MAXCNT[i] && !bad; k++) {
            const int t = HAND_TYPE[i];
            if (!allPieces && r.chance(mode == 5 ? 80 : 30)) continue;
            const int c = mode == 6 ? (r.chance(85) ? BLACK : WHITE) : mode == 7 ? (r.chance(85) ? WHITE : BLACK) : r.below(2);
            if (r.chance(handPct)) { q.hand[c][i]++; continue; }
            int tries = 0;
            for (;; tries++) {
                if (tries > 60) { q.hand[c][i]++; break; }
                int s = r.below(81);
                if (r.chance(35)) { // near a king
                    int k2 = r.below(2) ? kb : kw; int f = fileOf(k2) + r.below(5) - 2, rr = rankOf(k2) + r.below(5) - 2;
                    if (!onBoard(f, rr)) continue; s = sqOf(f, rr);
                } else if (r.chance(20)) { // on a king line
                    int k2 = r.below(2) ? kb : kw; s = r.below(2) ? sqOf(fileOf(k2), r.below(9)) : sqOf(r.below(9), rankOf(k2));
                }
                if (q.bd[s]) continue;
                int ty = t;
                if (promotable(t) && r.chance(promoPct)) ty += 8;
                if (ty == t && (Pos::deadEnd(c, t, s) || (t == P && q.hasPawnOnFile(c, fileOf(s))))) continue;
                q.bd[s] = mk(c, ty);
                break;
            }
        }
        if (q.inCheck(q.turn ^ 1)) {
            // drop the offending attackers into hand
            int k = q.king(q.turn ^ 1);
            for (int s = 0; s < 81; s++)
                if (q.bd[s] && colorOf(q.bd[s]) == q.turn && q.attacks(s, k)) {
                    if (typeOf(q.bd[s]) == K) { bad = true; break; }
                    q.hand[q.turn][handIdx(demote(typeOf(q.bd[s])))]++; q.bd[s] = 0; s = -1;
                }
        }
        if (bad || !q.valid()) continue;
        return q;
    }
}

// pick a move with a bias; policy 0 uniform, 1 checks, 2 captures, 3 promotions, 4 drops, 5 king moves, 6 quiet returns
inline Move pick(const Pos& q, const std::vector<Move>& ms, int policy, Rng& r) {
    if (policy == 0 || r.chance(25)) return ms[r.below((int)ms.size())];
    std::vector<Move> c;
    for (auto& m : ms) {
        bool ok = false;
        switch (policy) {
        case 1: { Pos a = q.after(m); ok = a.inCheck(); break; }
        case 2: ok = m.cap != 0; break;
        case 3: ok = m.promo; break;
        case 4: ok = m.from < 0; break;
        case 5: ok = m.pt == K; break;
        case 6: ok = m.from >= 0 && !m.cap && !m.promo && m.pt != P; break;
        }
        if (ok) c.push_back(m);
    }
    if (c.empty()) return ms[r.below((int)ms.size())];
    return c[r.below((int)c.size())];
}

static const char* const SPECIAL[] = {
    START,
    "R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1",     // 593 legal moves
    "l7l/5bS2/p1np5/6Sk1/4p2B1/PSpPPn1G1/1P1G2g1N/2l1g4/LK7 b 2R8Psn 1",
    "lnsgkgsnl/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1",
    "lnsgkgsnl/1r7/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1",
    "4k4/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1",
    "9/9/ppppppppp/3k5/9/4K4/9/9/9 b 2R2B4G4S4N4L9P 1",
    "8k/9/8K/9/9/9/9/9/9 b 2R2B4G4S4N4L18P 1",
    "8l/1l+R2P3/p2pBG1pp/kps1p4/Nn1P2G2/P1P1P2PP/1PS6/1KSG3+r1/LN2+p3L w Sbgn3p 124",
    "k8/9/9/9/9/9/9/9/8K b - 1",
    "4k4/9/4P4/9/9/9/9/9/4K4 b G 1",
    "7nk/9/7GP/9/9/9/9/9/8K b P 1",
    "9/G+P+P+PSS+B2/r7K/LG+PSG+P+P2/1NlN2NL1/9/9/6k2/9 b RBGSNL4P8p 295", // 105 evasions
    "9/+PS+P+P+BSG2/r7K/+P+PS+PG+P+P2/2N1N1N2/2k6/9/9/1L+L4L1 b RBGSNLPg9p 295",
};
static const int NSPECIAL = sizeof(SPECIAL) / sizeof(SPECIAL[0]);
} // namespace ref
