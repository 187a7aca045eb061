// Monitors over the engine core (moves, legality, incremental state, keys, codecs, ...).
#include <random>
#include "ref.hpp"
#include "common.hpp"
#include <climits>
#include <tuple>
#include <algorithm>
#include <memory>
#include <unordered_map>
#include "cshogi.h"

using ref::Pos;
using ref::Rng;
typedef ref::Move RM;

static std::string setstr(const std::vector<int>& v) {
    std::string s; for (int m : v) { s += __move_to_usi(m); char b[16]; snprintf(b, 16, "(%06x) ", m); s += b; } return s;
}
static Pos observe(__Board& b) {
    Pos q;
    for (int i = 0; i < 81; i++) q.bd[i] = b.piece(i);
    for (int c = 0; c < 2; c++) { auto h = b.pieces_in_hand(c); for (int i = 0; i < 7; i++) q.hand[c][i] = h[i]; }
    q.turn = b.turn(); q.ply = b.ply();
    return q;
}
static std::vector<int> legalList(const __Board& b) {
    std::vector<int> v;
    __LegalMoveList ml(b);
    const int n = ml.size();
    for (; !ml.end(); ml.next()) v.push_back(ml.move());
    if ((int)v.size() != n) mon::violation("legal-size", "len() != iterated count");
    return v;
}
static std::vector<int> pseudoList(const __Board& b) {
    std::vector<int> v;
    __PseudoLegalMoveList ml(b);
    for (; !ml.end(); ml.next()) v.push_back(ml.move());
    return v;
}
static void classify(const Pos& q, const std::vector<RM>& ms) {
    int k = q.king(q.turn);
    int chk = q.attackerCount(k, q.turn ^ 1);
    mon::count(chk == 0 ? "pos.nocheck" : chk == 1 ? "pos.check" : "pos.doublecheck");
    if (ms.empty()) mon::count("pos.nomoves");
    mon::maxi("legal_moves", (long)ms.size());
    for (auto& m : ms) {
        if (m.from < 0) mon::count("mv.drop"); else { mon::count(m.promo ? "mv.promo" : "mv.board"); if (m.cap) mon::count("mv.capture"); }
    }
}

// ---- C01 -------------------------------------------------------------------
static void checkMovegen(__Board& b, const Pos& q) {
    mon::crumb("movegen %s", q.sfen().c_str());
    std::vector<RM> rl = q.legalMoves();
    std::vector<int> want; for (auto& m : rl) want.push_back(ref::encode(m));
    std::vector<int> got = legalList(b);
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    mon::eval(); mon::distinct(q.sfen(false)); classify(q, rl);
    for (auto& m : rl) if (m.from < 0 && m.pt == ref::P) { Pos a = q.after(m); if (a.inCheck()) mon::count("mv.pawndropcheck"); }
    if (want != got) {
        std::vector<int> miss, extra;
        std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss));
        std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
        mon::violation("legal-set", q.sfen() + " missing: " + setstr(miss) + " extra/duplicate: " + setstr(extra));
    }
    if (b.is_game_over() != rl.empty()) mon::violation("game-over", q.sfen());
    if (b.inCheck() != q.inCheck()) mon::violation("in-check", q.sfen());
    // pseudo-legal enumeration: filtered it may only lose moves that are pointless non-promotions
    std::vector<int> pl = pseudoList(b), fl;
    for (int m : pl) if (b.pseudoLegalMoveIsLegal(m)) fl.push_back(m);
    std::sort(fl.begin(), fl.end());
    if (std::adjacent_find(fl.begin(), fl.end()) != fl.end()) mon::violation("pseudo-dup", q.sfen() + " " + setstr(fl));
    for (int m : fl) if (!std::binary_search(want.begin(), want.end(), m)) { mon::violation("pseudo-extra", q.sfen() + " " + __move_to_usi(m)); break; }
    for (auto& m : rl) {
        if (std::binary_search(fl.begin(), fl.end(), ref::encode(m))) continue;
        bool pointless = m.from >= 0 && !m.promo && (m.pt == ref::P || m.pt == ref::L || m.pt == ref::B || m.pt == ref::R)
            && (Pos::inZone(q.turn, m.from) || Pos::inZone(q.turn, m.to));
        mon::count("pseudo.omitted_nonpromotion");
        if (!pointless) { mon::violation("pseudo-missing", q.sfen() + " " + ref::usi(m)); break; }
    }
    mon::count("moves.compared", (long)want.size());
}

// ---- generic position walk -------------------------------------------------
template <class F> static void walk(const mon::Opt& o, F f, int maxLen = 120, bool allPieces = false) {
    Rng r(o.seed * 1000003ull + o.shard);
    if (o.shard == 0) for (int i = 0; i < ref::NSPECIAL; i++) {
        Pos q; if (!Pos::parse(ref::SPECIAL[i], q)) { fprintf(stderr, "bad special %d\n", i); exit(9); }
        if (allPieces && !q.full()) continue;
        __Board b(q.sfen()); f(b, q, r);
    }
    for (long g = 0; g < o.cases; g++) {
        Pos q;
        const int kind = r.below(10);
        if (kind < 4) Pos::parse(ref::START, q);
        else if (kind == 4 && !allPieces) Pos::parse(ref::SPECIAL[r.below(ref::NSPECIAL)], q);
        else q = ref::randomSetup(r, allPieces || r.below(2));
        __Board b(q.sfen());
        const int len = kind < 4 ? 20 + r.below(maxLen) : r.below(25);
        int policy = r.below(7);
        f(b, q, r);
        for (int i = 0; i < len; i++) {
            std::vector<RM> ms = q.legalMoves();
            if (ms.empty()) { mon::count("walk.terminal"); break; }
            if (r.chance(10)) policy = r.below(7);
            RM m = ref::pick(q, ms, policy, r);
            mon::crumb("push %s on %s", ref::usi(m).c_str(), q.sfen().c_str());
            b.push(ref::encode(m)); q.apply(m);
            f(b, q, r);
        }
        if (g < 2) mon::sample(q.sfen());
        mon::count("walk.games");
    }
}

// ---- C02: exhaustive agreement of the legality queries with the rules ------
static const char* CSAT[] = { "", "FU", "KY", "KE", "GI", "KA", "HI", "KI", "OU", "TO", "NY", "NK", "NG", "UM", "RY" };
static std::string csaSq(int s) { return std::string(1, char('1' + ref::fileOf(s))) + char('1' + ref::rankOf(s)); }
static std::string csaOf(const RM& m) {
    return (m.from < 0 ? std::string("00") : csaSq(m.from)) + csaSq(m.to) + CSAT[m.promo ? m.pt + 8 : m.pt];
}
static void checkLegality(__Board& b, const Pos& q, Rng& r, bool deep) {
    mon::crumb("legality %s", q.sfen().c_str());
    std::vector<RM> rl = q.legalMoves();
    std::unordered_map<int, RM> L; std::unordered_map<std::string, int> U, C;
    for (auto& m : rl) { int e = ref::encode(m); L[e] = m; U[ref::usi(m)] = e; C[csaOf(m)] = e; }
    mon::eval(); mon::distinct(q.sfen(false));
    for (auto& m : rl) {
        const int e = ref::encode(m);
        if (!b.moveIsLegal(e)) mon::violation("is_legal-rejects", q.sfen() + " " + ref::usi(m));
        if (!b.moveIsPseudoLegal(e)) mon::violation("is_pseudo_legal-rejects", q.sfen() + " " + ref::usi(m));
        if (b.move_from_usi(ref::usi(m)) != e) mon::violation("usi-rejects", q.sfen() + " " + ref::usi(m));
        if (b.move_from_csa(csaOf(m)) != e) mon::violation("csa-rejects", q.sfen() + " " + csaOf(m));
        if (b.move_from_move16((unsigned short)e) != e) mon::violation("move16", q.sfen() + " " + ref::usi(m));
        if (b.move_from_psv(__move16_to_psv((unsigned short)e)) != e) mon::violation("psv", q.sfen() + " " + ref::usi(m));
        if (m.from >= 0) { if (b.move(m.from, m.to, m.promo) != e) mon::violation("move()", q.sfen() + " " + ref::usi(m)); }
        else if (b.drop_move(m.to, m.pt) != e) mon::violation("drop_move()", q.sfen() + " " + ref::usi(m));
        mon::count("accepted", 1);
    }
    if (!deep) return;
    // every syntactically well-formed USI move in this position
    long rej = 0;
    auto tryUsi = [&](const std::string& u) {
        mon::crumb("usi %s on %s", u.c_str(), q.sfen().c_str());
        int got = b.move_from_usi(u); auto it = U.find(u); int want = it == U.end() ? 0 : it->second;
        if (got != want) mon::violation(want ? "usi-rejects" : "usi-accepts-illegal", q.sfen() + " " + u);
        if (!want) rej++;
    };
    for (int f = 0; f < 81; f++) for (int t = 0; t < 81; t++) {
        std::string u = ref::sqStr(f) + ref::sqStr(t);
        tryUsi(u); tryUsi(u + "+");
        const int p = q.bd[f];
        for (int pr = 0; pr < 2; pr++) {
            int e = t | (f << 7) | (pr << 14) | (ref::typeOf(p) << 16) | (ref::typeOf(q.bd[t]) << 20);
            if (!p) e |= (1 + r.below(14)) << 16;
            bool got = b.moveIsLegal(e), want = L.count(e) != 0;
            if (got != want) { RM x; x.from = f; x.to = t; x.promo = pr; mon::violation(want ? "is_legal-rejects" : "is_legal-accepts-illegal", q.sfen() + " " + ref::usi(x)); }
        }
    }
    static const char* PL = "PLNSBRGK";
    for (int i = 0; i < 8; i++) for (int t = 0; t < 81; t++) {
        tryUsi(std::string(1, PL[i]) + "*" + ref::sqStr(t));
        if (i < 7) {
            int e = t | ((81 + i) << 7); bool got = b.moveIsLegal(e), want = L.count(e) != 0;
            if (got != want) mon::violation(want ? "is_legal-rejects" : "is_legal-accepts-illegal", q.sfen() + " drop " + PL[i] + ref::sqStr(t));
        }
        std::string c = "00" + csaSq(t) + CSAT[1 + r.below(14)];
        int got = b.move_from_csa(c); auto it = C.find(c);
        if (got != (it == C.end() ? 0 : it->second)) mon::violation("csa-drop", q.sfen() + " " + c);
    }
    for (int f = 0; f < 81; f++) if (q.bd[f]) for (int t = 0; t < 81; t++) {
        int ty = ref::typeOf(q.bd[f]);
        for (int pt : { ty, ty + 8 }) { if (pt > 14) continue;
            std::string c = csaSq(f) + csaSq(t) + CSAT[pt];
            int got = b.move_from_csa(c); auto it = C.find(c);
            if (got != (it == C.end() ? 0 : it->second)) mon::violation(it == C.end() ? "csa-accepts-illegal" : "csa-rejects", q.sfen() + " " + c); }
    }
    mon::count("rejected", rej);
}


// ---- snapshots -------------------------------------------------------------
static std::string hex(const unsigned char* p, int n) { std::string s; char b[4]; for (int i = 0; i < n; i++) { snprintf(b, 4, "%02x", p[i]); s += b; } return s; }
struct Snap {
    std::string sfen, csa, hcp, psfen, dump; std::vector<int> pieces, hist, legal; unsigned long long key, bkey; bool chk, over, ny; int draw, turn, ply, k0, k1, peek;
    static Snap take(__Board& b) {
        Snap s; s.sfen = b.toSFEN(); s.csa = b.toCSAPos(); s.dump = b.dump();
        unsigned char h[32]; b.toHuffmanCodedPos((char*)h); s.hcp = hex(h, 32); b.toPackedSfen((char*)h); s.psfen = hex(h, 32);
        s.pieces = b.pieces(); for (int i = 0; i < 81; i++) s.pieces.push_back(b.piece(i));
        for (int c = 0; c < 2; c++) for (int x : b.pieces_in_hand(c)) s.pieces.push_back(x);
        s.hist = b.get_history(); s.legal = legalList(b); s.key = b.getKey(); s.bkey = b.bookKey(); s.chk = b.inCheck(); s.over = b.is_game_over();
        s.ny = b.is_nyugyoku(); s.draw = b.isDraw(INT_MAX); s.turn = b.turn(); s.ply = b.ply(); s.k0 = b.kingSquare(0); s.k1 = b.kingSquare(1); s.peek = b.peek();
        return s;
    }
    std::string diff(const Snap& o) const {
        std::string d;
#define D(x) if (x != o.x) d += #x " ";
        D(sfen) D(csa) D(hcp) D(psfen) D(dump) D(pieces) D(hist) D(legal) D(key) D(bkey) D(chk) D(over) D(ny) D(draw) D(turn) D(ply) D(k0) D(k1) D(peek)
#undef D
        return d;
    }
};
// the state of b must be what setting the position up from scratch gives (history aside)
static std::string freshDiff(__Board& b, const Pos& q, const Snap& s) {
    __Board f(q.sfen());
    Snap t = Snap::take(f);
    t.hist = s.hist; t.peek = s.peek; t.draw = s.draw;
    std::sort(t.legal.begin(), t.legal.end()); Snap u = s; std::sort(u.legal.begin(), u.legal.end());
    std::string d = t.diff(u);
    std::vector<float> a1(2 * MAX_FEATURES1_NUM * 81), a2(MAX_FEATURES2_NUM * 81), c1(a1.size()), c2(a2.size());
    b._dlshogi_make_input_features((char*)a1.data(), (char*)a2.data());
    f._dlshogi_make_input_features((char*)c1.data(), (char*)c2.data());
    if (a1 != c1 || a2 != c2) d += "features ";
    return d;
}
static std::string refDiff(__Board& b, const Pos& q) {
    std::string d;
    Pos o = observe(b);
    if (!o.sameBoard(q)) d += "board ";
    if (memcmp(o.hand, q.hand, sizeof q.hand)) d += "hand ";
    if (o.turn != q.turn) d += "turn ";
    if (o.ply != q.ply) d += "ply ";
    if (b.toSFEN() != q.sfen()) d += "sfen ";
    if (b.inCheck() != q.inCheck()) d += "inCheck ";
    for (int c = 0; c < 2; c++) if (b.kingSquare(c) != q.king(c)) d += "kingSquare ";
    std::vector<int> v = b.pieces(); for (int i = 0; i < 81; i++) if (v[i] != q.bd[i]) { d += "pieces() "; break; }
    return d;
}
// ---- C03 -------------------------------------------------------------------
static void runState(const mon::Opt& o) {
    Rng r(o.seed * 7919ull + o.shard + 5);
    for (long g = 0; g < o.cases; g++) {
        Pos q; if (r.below(3) == 0) Pos::parse(ref::START, q); else q = ref::randomSetup(r, r.below(2));
        std::unique_ptr<__Board> b(new __Board(q.sfen()));
        struct Ent { Snap s; Pos q; int mv; };
        std::vector<Ent> st;
        const int ops = 60 + r.below(120);
        int policy = r.below(7), drift = r.below(60);
        std::string trail = q.sfen() + " :";
        std::unique_ptr<__Board> side; Snap sideSnap; std::vector<Ent> sideSt;
        for (int k = 0; k < ops; k++) {
            mon::crumb("state %s", trail.c_str());
            mon::eval();
            std::vector<RM> ms = q.legalMoves();
            int act = r.below(100);
            if (!st.empty() && (ms.empty() || act < 25 + (k % 60 < drift ? 0 : 30))) {
                Ent e = st.back(); st.pop_back();
                trail += e.mv == 129 ? " pop_pass" : " pop";
                if (e.mv == 129) b->pop_pass(); else { int m = b->pop(); if (m != e.mv) mon::violation("pop-return", trail); }
                q = e.q;
                Snap n = Snap::take(*b);
                std::string d = n.diff(e.s); if (!d.empty()) mon::violation(e.mv == 129 ? "pop_pass-restore" : "pop-restore", d + " | " + trail);
                mon::count(e.mv == 129 ? "op.pop_pass" : "op.pop");
            } else if (act > 92 && !q.inCheck()) {
                Ent e; e.s = Snap::take(*b); e.q = q; e.mv = 129; st.push_back(e);
                trail += " pass"; b->push_pass(); q.turn ^= 1; mon::count("op.push_pass");
            } else if (!ms.empty()) {
                RM m = ref::pick(q, ms, policy, r); if (r.chance(10)) policy = r.below(7);
                Ent e; e.s = Snap::take(*b); e.q = q; e.mv = ref::encode(m);
                if (r.chance(10)) { // queries must not disturb the position
                    mon::crumb("query %s", trail.c_str());
                    if (q.inCheck()) b->is_mate(2); else { b->mateMoveIn1Ply(); b->mateMove(3); }
                    std::string d = Snap::take(*b).diff(e.s); if (!d.empty()) mon::violation("query-disturbs", d + " | " + trail);
                    mon::count("op.query");
                }
                st.push_back(e); trail += " " + ref::usi(m);
                b->push(e.mv); q.apply(m); mon::count("op.push"); if (m.cap) mon::count("op.push.capture"); if (m.promo) mon::count("op.push.promo"); if (m.from < 0) mon::count("op.push.drop");
            } else break;
            Snap now = Snap::take(*b);
            std::string d = refDiff(*b, q); if (!d.empty()) mon::violation("state-vs-rules", d + " | " + trail);
            d = freshDiff(*b, q, now); if (!d.empty()) mon::violation("state-vs-fresh", d + " | " + trail);
            if (now.hist.size() != st.size()) mon::violation("history-length", trail);
            else for (size_t i = 0; i < st.size(); i++) if (now.hist[i] != st[i].mv) { mon::violation("history", trail); break; }
            if (now.peek != (st.empty() ? 0 : st.back().mv)) mon::violation("peek", trail);
            // copies: independent of, and indistinguishable from, the original
            if (r.chance(4)) {
                mon::crumb("copy %s", trail.c_str());
                if (r.below(2)) { side.reset(new __Board(*b)); } else { side.reset(new __Board()); side->push(side->move_from_usi("7g7f")); *side = *b; }
                sideSnap = Snap::take(*side); sideSt = st; mon::count("op.copy");
                std::string dd = sideSnap.diff(now); if (!dd.empty()) mon::violation("copy-differs", dd + " | " + trail);
                if (r.chance(30)) { std::swap(b, side); mon::count("op.copy.swap"); if (r.chance(50)) { side.reset(); } }
            }
            if (side && r.chance(8)) {
                mon::crumb("unwind copy %s", trail.c_str());
                std::string dd = Snap::take(*side).diff(sideSnap); if (!dd.empty()) mon::violation("copy-not-independent", dd + " | " + trail);
                for (int i = (int)sideSt.size() - 1; i >= 0; i--) {
                    if (sideSt[i].mv == 129) side->pop_pass(); else side->pop();
                    std::string d3 = Snap::take(*side).diff(sideSt[i].s); if (!d3.empty()) { mon::violation("copy-unwind", d3 + " | " + trail); break; }
                }
                side.reset(); mon::count("op.copy.unwind");
            }
        }
        mon::distinct(trail); if (g < 2) mon::sample(trail.substr(0, 400));
        // unwind completely
        while (!st.empty()) {
            Ent e = st.back(); st.pop_back(); if (e.mv == 129) b->pop_pass(); else b->pop();
            std::string d = Snap::take(*b).diff(e.s); if (!d.empty()) { mon::violation("unwind", d + " | " + trail); break; }
        }
    }
}
// ---- C04 -------------------------------------------------------------------
enum { RNOT, RDRAW, RWIN, RLOSE, RSUP, RINF };
struct Rec { Pos q; bool gaveCheck; bool viaPass; };   // position after a move, whether that move gave check
static bool handGE(const int* a, const int* b) { for (int i = 0; i < 7; i++) if (a[i] < b[i]) return false; return true; }
static int refRep(const std::vector<Rec>& h, int maxPly) {
    const int n = (int)h.size() - 1; const Pos& cur = h[n].q;
    for (int i = 4; i <= maxPly && n - i >= 0; i += 2) {
        bool pass = false; for (int k = n - i + 1; k <= n; k++) if (h[k].viaPass) pass = true;
        if (pass) break;
        const Pos& old = h[n - i].q;
        if (old.samePlacement(cur)) {
            bool meAll = true, opAll = true;      // my moves are those leading to positions n-1, n-3 ...
            for (int k = n; k > n - i; k--) { bool mine = ((n - k) & 1) == 1; if (!h[k].gaveCheck) { if (mine) meAll = false; else opAll = false; } }
            if (meAll) return RLOSE;
            if (opAll) return RWIN;
            return RDRAW;
        }
        if (old.sameBoard(cur) && old.turn == cur.turn) {
            const int* a = cur.hand[cur.turn]; const int* b = old.hand[cur.turn];
            if (handGE(a, b)) return RSUP;
            if (handGE(b, a)) return RINF;
        }
    }
    return RNOT;
}
static void runRepetition(const mon::Opt& o) {
    Rng r(o.seed * 15485863ull + o.shard + 11);
    static const char* NM[] = { "not", "draw", "win", "lose", "superior", "inferior" };
    static const char* SEEDS[] = {
        "4k4/9/9/9/9/9/9/9/4K4 b RBrb 1", "3rk4/9/9/9/9/9/9/9/4K4 b R 1", "k8/9/9/9/9/9/9/9/4K2R1 b - 1", "4k4/4r4/9/9/9/9/9/9/3K5 w - 1",
        "ln5nl/1r3k3/p3p1ppp/2pp5/9/2P3P2/PP1PP2PP/3K3R1/LN5NL b BGSbgs 1", "9/5k3/9/4+R4/9/9/9/9/4K4 b 2Gp 1", "9/9/9/4k4/9/9/4+r4/9/5K3 w 2g3P 1",
        "1k7/9/1G7/9/9/9/9/9/1K2R4 b 2P2p 1" };
    for (long g = 0; g < o.cases; g++) {
        Pos q; int s = r.below(12);
        if (s < 8) Pos::parse(SEEDS[s], q); else if (s == 8) Pos::parse(ref::START, q); else q = ref::randomSetup(r, false);
        if (!q.valid()) { fprintf(stderr, "bad repetition seed %d\n", s); exit(9); }
        __Board b(q.sfen());
        std::vector<Rec> h; h.push_back({ q, false, false });
        std::string trail = q.sfen() + " :";
        const int checkSide = r.below(4);   // 0/1: that side prefers checks, else none
        const int ret = 40 + r.below(50);
        for (int k = 0; k < 60; k++) {
            mon::crumb("rep %s", trail.c_str());
            std::vector<RM> ms = q.legalMoves(); if (ms.empty()) break;
            if (r.chance(2) && !q.inCheck()) { b.push_pass(); q.turn ^= 1; h.push_back({ q, false, true }); trail += " pass"; mon::count("pass"); continue; }
            // move_is_draw for every legal move must agree with push + is_draw (apart from the superior/inferior verdicts it never reports)
            if (r.chance(25)) for (auto& m : ms) {
                Pos a = q.after(m); std::vector<Rec> hh = h; hh.push_back({ a, a.inCheck(), false });
                int lim = r.chance(50) ? INT_MAX : 1 + r.below(14);
                int want = refRep(hh, lim), got = b.moveIsDraw(ref::encode(m), lim);
                mon::count(std::string("move_is_draw.") + NM[want]);
                bool hasSame = false; // an exact recurrence behind a superior/inferior one is what move_is_draw reports
                if (want == RSUP || want == RINF) {
                    int want2 = RNOT;
                    const int n = (int)hh.size() - 1;
                    for (int i = 4; i <= lim && n - i >= 0 && !hasSame; i += 2) {
                        bool pass = false; for (int kk = n - i + 1; kk <= n; kk++) if (hh[kk].viaPass) pass = true; if (pass) break;
                        if (hh[n - i].q.samePlacement(hh[n].q)) { hasSame = true;
                            bool meAll = true, opAll = true; for (int kk = n; kk > n - i; kk--) { bool mine = ((n - kk) & 1) == 1; if (!hh[kk].gaveCheck) { if (mine) meAll = false; else opAll = false; } }
                            want2 = meAll ? RLOSE : opAll ? RWIN : RDRAW; } }
                    want = want2;
                }
                if (got != want) mon::violation("move_is_draw", std::string("want ") + NM[want] + " got " + (got >= 0 && got < 6 ? NM[got] : "?") + " limit " + std::to_string(lim) + " move " + ref::usi(m) + " | " + trail);
            }
            // choose: return to a known position with probability ret
            RM m; bool chosen = false;
            if (r.chance(ret)) {
                std::vector<RM> c;
                for (auto& x : ms) { Pos a = q.after(x); if (checkSide == q.turn && !a.inCheck()) continue; for (size_t i = 0; i < h.size(); i++) if (h[i].q.sameBoard(a) && h[i].q.turn == a.turn) { c.push_back(x); break; } }
                if (!c.empty()) { m = c[r.below((int)c.size())]; chosen = true; }
            }
            if (!chosen) m = ref::pick(q, ms, q.turn == checkSide ? 1 : r.chance(60) ? 6 : r.below(7), r);
            b.push(ref::encode(m)); q.apply(m); trail += " " + ref::usi(m);
            h.push_back({ q, q.inCheck(), false });
            mon::eval();
            for (int lim : { INT_MAX, 4 + r.below(12) }) {
                int want = refRep(h, lim), got = b.isDraw(lim);
                mon::count(std::string("is_draw.") + NM[want]);
                if (want != got) mon::violation("is_draw", std::string("want ") + NM[want] + " got " + (got >= 0 && got < 6 ? NM[got] : "?") + " limit " + std::to_string(lim) + " | " + trail);
            }
            if (r.chance(15) && !h.back().viaPass) { // take a few moves back and try again
                int n = 1 + r.below(5);
                while (n-- > 0 && h.size() > 1 && !h.back().viaPass) { b.pop(); h.pop_back(); q = h.back().q; trail += " pop"; }
                int want = refRep(h, INT_MAX), got = b.isDraw(INT_MAX); mon::count("pop");
                if (want != got) mon::violation("is_draw-after-pop", std::string("want ") + NM[want] + " got " + NM[got] + " | " + trail);
            }
            if (r.chance(4) && !q.inCheck()) { b.push_pass(); b.pop_pass(); trail += " pass pop_pass"; mon::count("pass.pop");
                int want = refRep(h, INT_MAX), got = b.isDraw(INT_MAX); if (want != got) mon::violation("is_draw-after-pop_pass", std::string("want ") + NM[want] + " got " + NM[got] + " | " + trail); }
            if (r.chance(3)) { __Board c(b); b = c; mon::count("copy"); }
        }
        mon::distinct(trail); if (g < 2) mon::sample(trail.substr(0, 300));
    }
}
// ---- C05 -------------------------------------------------------------------
static std::string refCsaPos(const Pos& q) {
    static const char* T[] = { "", "FU", "KY", "KE", "GI", "KA", "HI", "KI", "OU", "TO", "NY", "NK", "NG", "UM", "RY" };
    std::string s;
    for (int r = 0; r < 9; r++) { s += "P" + std::to_string(r + 1);
        for (int f = 8; f >= 0; f--) { int p = q.bd[ref::sqOf(f, r)]; s += p ? std::string(ref::colorOf(p) ? "-" : "+") + T[ref::typeOf(p)] : std::string(" * "); } s += "\n"; }
    return s;
}
// The published 256-bit codes, bit by bit (least significant bit of each byte first): side to move, both king squares (7 bits), the squares 1a 1b .. 9i without the kings,
// the hands (Black, White), the missing pieces.  Prefix codes in the order pawn lance knight silver gold bishop rook.
static std::string refCode(const Pos& q, bool packed) {
    static const char* const B[2][7] = { { "10", "1100", "1110", "1101", "11110", "111110", "111111" }, { "10", "1100", "1101", "1110", "11110", "111110", "111111" } };
    static const char* const H[2][7] = { { "00", "1000", "1100", "1010", "1110", "111110", "111111" }, { "00", "1000", "1010", "1100", "1110", "111100", "111110" } };
    static const char* const X[2][7] = { { "010", "10010", "11010", "10110", "10111", "1111000", "1111010" }, { "010", "10010", "10110", "11010", "11011", "1111010", "1111110" } };
    std::string bits; auto num = [&](int v, int n) { while (n--) { bits += char('0' + (v & 1)); v >>= 1; } };
    num(q.turn, 1); num(q.king(0), 7); num(q.king(1), 7);
    int left[7]; for (int i = 0; i < 7; i++) left[i] = ref::MAXCNT[i] - q.hand[0][i] - q.hand[1][i];
    for (int s = 0; s < 81; s++) {
        if (!q.bd[s]) { bits += '0'; continue; }
        int t = ref::typeOf(q.bd[s]); if (t == ref::K) continue;
        int i = ref::handIdx(ref::demote(t)); left[i]--; bits += B[packed][i];
        char c = char('0' + ref::colorOf(q.bd[s])), p = t > ref::K ? '1' : '0';
        if (i == 4) bits += c; else if (packed) { bits += p; bits += c; } else { bits += c; bits += p; }
    }
    for (int c = 0; c < 2; c++) for (int i = 0; i < 7; i++) for (int n = 0; n < q.hand[c][i]; n++) { bits += H[packed][i]; bits += char('0' + c); }
    for (int i = 0; i < 7; i++) for (int n = 0; n < left[i]; n++) bits += X[packed][i];
    std::string o(32, '\0'); for (size_t i = 0; i < bits.size() && i < 256; i++) if (bits[i] == '1') o[i / 8] |= char(1 << (i % 8));
    return o;
}
static std::map<std::string, std::string> g_hcpSeen, g_psfSeen;
static void checkCodec(__Board& b, const Pos& q, Rng& r) {
    mon::crumb("codec %s", q.sfen().c_str());
    mon::eval(); mon::distinct(q.sfen(false));
    const std::string S = q.sfen(), P0 = q.sfen(false);
    if (b.toSFEN() != S) mon::violation("sfen-encode", S + " got " + b.toSFEN());
    auto same = [&](__Board& x, const char* what, bool ply) {
        Pos o = observe(x);
        if (!o.samePlacement(q)) mon::violation(std::string(what) + "-decode", S + " got " + x.toSFEN());
        else if (x.getKey() != b.getKey()) mon::violation(std::string(what) + "-key", S);
        else if (ply && o.ply != q.ply) mon::violation(std::string(what) + "-ply", S);
        if (x.kingSquare(0) != q.king(0) || x.kingSquare(1) != q.king(1)) mon::violation(std::string(what) + "-king", S);
        if (x.inCheck() != q.inCheck()) mon::violation(std::string(what) + "-check", S);
        auto l1 = legalList(x); auto l2 = legalList(b); std::sort(l1.begin(), l1.end()); std::sort(l2.begin(), l2.end());
        if (l1 != l2) mon::violation(std::string(what) + "-moves", S);
        if (!x.get_history().empty()) mon::violation(std::string(what) + "-history", S);
    };
    static __Board x;      // deliberately reused: a set must not depend on what was there before
    if (r.chance(50)) { auto l = legalList(x); if (!l.empty()) x.push(l[r.below((int)l.size())]); }
    x.set(S); same(x, "sfen", true);
    if (r.chance(50)) { auto l = legalList(x); if (!l.empty()) x.push(l[r.below((int)l.size())]); }
    x.set_position("sfen " + S); same(x, "position", true);
    std::vector<unsigned char> h(32 + 64, 0xA5);
    b.toHuffmanCodedPos((char*)h.data() + 32);
    for (int i = 0; i < 32; i++) if (h[i] != 0xA5 || h[64 + i] != 0xA5) { mon::violation("hcp-overrun", S); break; }
    std::string hh((char*)h.data() + 32, 32); if (hh != refCode(q, false)) mon::violation("hcp-format", S);
    auto it = g_hcpSeen.emplace(hh, P0); if (!it.second && it.first->second != P0) mon::violation("hcp-collision", P0 + " / " + it.first->second);
    if (r.chance(50)) { auto l = legalList(x); if (!l.empty()) x.push(l[r.below((int)l.size())]); }
    x.set_hcp((char*)h.data() + 32); same(x, "hcp", false);
    if (x.ply() != 1) mon::violation("hcp-ply", S);
    unsigned char h2[32]; x.toHuffmanCodedPos((char*)h2); if (memcmp(h2, hh.data(), 32)) mon::violation("hcp-reencode", S);
    std::fill(h.begin(), h.end(), 0x5A);
    b.toPackedSfen((char*)h.data() + 32);
    for (int i = 0; i < 32; i++) if (h[i] != 0x5A || h[64 + i] != 0x5A) { mon::violation("psfen-overrun", S); break; }
    std::string ph((char*)h.data() + 32, 32); if (ph != refCode(q, true)) mon::violation("psfen-format", S);
    auto it2 = g_psfSeen.emplace(ph, P0); if (!it2.second && it2.first->second != P0) mon::violation("psfen-collision", P0 + " / " + it2.first->second);
    if (r.chance(50)) { auto l = legalList(x); if (!l.empty()) x.push(l[r.below((int)l.size())]); }
    x.set_psfen((char*)h.data() + 32); same(x, "psfen", false);
    x.toPackedSfen((char*)h2); if (memcmp(h2, ph.data(), 32)) mon::violation("psfen-reencode", S);
    if (b.toCSAPos().compare(0, refCsaPos(q).size(), refCsaPos(q)) != 0) mon::violation("csapos", S + "\n" + b.toCSAPos());
    int pcs[81], hd[2][7]; for (int i = 0; i < 81; i++) pcs[i] = q.bd[i]; memcpy(hd, q.hand, sizeof hd);
    { auto l = legalList(x); if (!l.empty()) x.push(l[r.below((int)l.size())]); }   // from another position than the one to be set up
    x.setTurn(q.turn); x.setPly(q.ply); x.set_pieces(pcs, hd);
    if (r.chance(50)) x.setTurn(q.turn);
    same(x, "pieces", true);
    // rotation of SFEN text
    std::string rs = __rotate_sfen(S);
    if (rs != q.rotated().sfen()) mon::violation("rotate_sfen", S + " -> " + rs + " want " + q.rotated().sfen());
    if (__rotate_sfen(rs) != S) mon::violation("rotate_sfen-involution", S);
    mon::count("codec.positions"); if (q.full()) mon::count("codec.full"); int mp = std::max(q.hand[0][0], q.hand[1][0]); mon::maxi("pawns_in_hand", mp);
    if (g_hcpSeen.size() > 400000) { g_hcpSeen.clear(); g_psfSeen.clear(); }
}
// ---- C06 -------------------------------------------------------------------
static std::unordered_map<unsigned long long, std::string> g_keySeen, g_bkSeen; static std::unordered_map<std::string, unsigned long long> g_posKey, g_posBk;
// The key under which the position is filed in opening books (Apery's format): random numbers of the standard 64-bit Mersenne twister for [piece code][square], [hand piece][count], side to move.
static unsigned long long refBookKey(const Pos& q) {
    static unsigned long long zp[31][81], zh[7][19], zt; static bool init = false;
    if (!init) { init = true; std::mt19937_64 g; for (auto& a : zp) for (auto& x : a) x = g(); for (auto& a : zh) for (auto& x : a) x = g(); zt = g(); }
    unsigned long long k = q.turn ? zt : 0;
    for (int s = 0; s < 81; s++) if (q.bd[s]) k ^= zp[q.bd[s]][s];
    for (int i = 0; i < 7; i++) k ^= zh[i][q.hand[q.turn][i]];
    return k;
}
static void checkKeys(__Board& b, const Pos& q, Rng& r) {
    mon::crumb("keys %s", q.sfen().c_str());
    mon::eval();
    const std::string S = q.sfen(false); mon::distinct(S);
    unsigned long long k = b.getKey(), bk = b.bookKey(); if (bk != refBookKey(q)) mon::violation("book-format", S);
    auto a = g_keySeen.emplace(k, S); if (!a.second && a.first->second != S) mon::violation("zobrist-collision", S + " / " + a.first->second);
    auto c = g_posKey.emplace(S, k); if (!c.second) { mon::count("transpositions"); if (c.first->second != k) mon::violation("zobrist-path", S); }
    // book key: board, hand of the side to move, turn -- the opponent's hand follows from the 40 pieces
    Pos z = q; std::string BS; { for (int i = 0; i < 7; i++) z.hand[q.turn ^ 1][i] = 0; BS = z.sfen(false); }
    auto d = g_bkSeen.emplace(bk, BS); if (!d.second && d.first->second != BS) mon::violation("book-collision", BS + " / " + d.first->second);
    auto e = g_posBk.emplace(BS, bk); if (!e.second && e.first->second != bk) mon::violation("book-path", BS);
    __Board f(q.sfen()); if (f.getKey() != k) mon::violation("zobrist-fresh", S); if (f.bookKey() != bk) mon::violation("book-fresh", S);
    // successors
    auto ms = q.legalMoves(); int n = 0;
    for (auto& m : ms) {
        if (ms.size() > 12 && !r.chance(20)) continue; n++;
        int e2 = ref::encode(m); unsigned long long ba = b.bookKeyAfter(bk, e2);
        b.push(e2); unsigned long long kk = b.bookKey(), k2 = b.getKey(); b.pop();
        if (ba != kk) mon::violation("book-key-after", q.sfen() + " " + ref::usi(m));
        Pos nx = q.after(m); std::string NS = nx.sfen(false);
        auto a2 = g_keySeen.emplace(k2, NS); if (!a2.second && a2.first->second != NS) mon::violation("zobrist-collision", NS + " / " + a2.first->second);
        auto c2 = g_posKey.emplace(NS, k2); if (!c2.second) { mon::count("transpositions"); if (c2.first->second != k2) mon::violation("zobrist-path", NS); }
    }
    if (b.getKey() != k) mon::violation("zobrist-pop", S);
    // order of moves must not matter: m1 x m2 where both orders are legal quiet moves
    if (!ms.empty() && r.chance(30) && !q.inCheck()) {
        RM m1 = ms[r.below((int)ms.size())], m2 = ms[r.below((int)ms.size())];
        // same side plays both with opponent passing in between
        auto seq = [&](RM x, RM y, unsigned long long& out) -> bool {
            Pos p = q; if (!(p.legal(x))) return false; p.apply(x); if (p.inCheck()) return false; p.turn ^= 1; if (p.inCheck(p.turn ^ 1)) return false;
            bool okm = false; for (auto& z2 : p.legalMoves()) if (z2 == y) okm = true; if (!okm) return false;
            b.push(ref::encode(x)); b.push_pass(); b.push(ref::encode(y)); out = b.getKey(); b.pop(); b.pop_pass(); b.pop(); return true; };
        unsigned long long k1, k2; if (!(m1 == m2) && m1.from != m2.from && m1.to != m2.to && seq(m1, m2, k1) && seq(m2, m1, k2)) { mon::count("commuted"); if (k1 != k2) mon::violation("zobrist-order", S + " " + ref::usi(m1) + " " + ref::usi(m2)); }
    }
    if (g_keySeen.size() > 600000) { g_keySeen.clear(); g_posKey.clear(); } if (g_bkSeen.size() > 600000) { g_bkSeen.clear(); g_posBk.clear(); }
    mon::count("successors", n);
}
// ---- C11 -------------------------------------------------------------------
static void checkMoves(__Board& b, const Pos& q, Rng& r) {
    mon::crumb("moves %s", q.sfen().c_str());
    mon::eval(); mon::distinct(q.sfen(false));
    Pos rq = q.rotated(); __Board rb(rq.sfen());
    std::vector<int> rl = legalList(rb), mine;
    std::set<std::string> us, cs; std::set<int> m16s;
    auto ms = q.legalMoves();
    for (auto& m : ms) {
        int e = ref::encode(m); std::string T = q.sfen() + " " + ref::usi(m);
        if (__move_to(e) != m.to) mon::violation("move_to", T);
        if (__move_from(e) != (m.from < 0 ? 80 + m.pt : m.from)) mon::violation("move_from", T);
        if (__move_cap(e) != m.cap) mon::violation("move_cap", T);
        if (__move_is_promotion(e) != m.promo) mon::violation("move_is_promotion", T);
        if (__move_is_drop(e) != (m.from < 0)) mon::violation("move_is_drop", T);
        if (m.from >= 0 && __move_from_piece_type(e) != m.pt) mon::violation("move_from_piece_type", T);
        if (m.from < 0 && __move_drop_hand_piece(e) != ref::handIdx(m.pt)) mon::violation("move_drop_hand_piece", T);
        if (m.from < 0 && __hand_piece_to_piece_type(__move_drop_hand_piece(e)) != m.pt) mon::violation("hand_piece_to_piece_type", T);
        if (__move_to_usi(e) != ref::usi(m) || __to_usi(e) != ref::usi(m)) mon::violation("move_to_usi", T);
        if (__move_to_csa(e) != csaOf(m) || __to_csa(e) != csaOf(m)) mon::violation("move_to_csa", T);
        us.insert(__move_to_usi(e)); cs.insert(__move_to_csa(e));
        unsigned short m16 = __move16(e); m16s.insert(m16);
        if (m16 != (unsigned short)(e & 0xffff)) mon::violation("move16", T);
        unsigned short psv = __move16_to_psv(m16);
        // YaneuraOu layout: to 7 bits, from 7 bits (piece type for drops), drop bit 14, promote bit 15
        unsigned short want = m.to | ((m.from < 0 ? m.pt : m.from) << 7) | (m.from < 0 ? 1 << 14 : 0) | (m.promo ? 1 << 15 : 0);
        if (psv != want) mon::violation("move16_to_psv", T);
        if (__move16_from_psv(psv) != m16) mon::violation("move16_from_psv", T);
        if (b.move_from_move16(m16) != e) mon::violation("move_from_move16", T);
        if (b.move_from_psv(psv) != e) mon::violation("move_from_psv", T);
        int ro = __move_rotate(e); RM rm = m; rm.to = 80 - m.to; if (m.from >= 0) rm.from = 80 - m.from;
        if (ro != ref::encode(rm)) mon::violation("move_rotate", T);
        if (__move_rotate(ro) != e) mon::violation("move_rotate-involution", T);
        mine.push_back(ro); mon::count("moves");
        // label: position of the move as seen by the player to move
        int lab = __dlshogi_make_move_label(e, q.turn), labr = __dlshogi_make_move_label(ro, q.turn ^ 1);
        if (lab != labr) mon::violation("label-rotation", T);
    }
    if (us.size() != ms.size()) mon::violation("usi-ambiguous", q.sfen());
    if (cs.size() != ms.size()) mon::violation("csa-ambiguous", q.sfen());
    if (m16s.size() != ms.size()) mon::violation("move16-ambiguous", q.sfen());
    std::sort(mine.begin(), mine.end()); std::sort(rl.begin(), rl.end());
    if (mine != rl) mon::violation("rotation-symmetry", q.sfen());
    if (rb.inCheck() != b.inCheck() ) mon::violation("rotation-check", q.sfen());
    for (int s = 0; s < 81; s++) { if (__make_file(s) != s / 9 || __make_rank(s) != s % 9) mon::violation("file-rank", std::to_string(s)); if (q.bd[s] && __piece_to_piece_type(q.bd[s]) != ref::typeOf(q.bd[s])) mon::violation("piece_to_piece_type", q.sfen()); }
}
// ---- C12 -------------------------------------------------------------------
static int refLabel(const RM& m, int c) {
    int to = c ? 80 - m.to : m.to;
    if (m.from < 0) return 81 * (20 + m.pt - 1) + to;
    int from = c ? 80 - m.from : m.from;
    int df = ref::fileOf(to) - ref::fileOf(from), dr = ref::rankOf(to) - ref::rankOf(from);  // black's view: dr<0 is forward, df>0 is to the left (higher file)
    int d;
    if (dr == -2 && std::abs(df) == 1) d = df > 0 ? 8 : 9;
    else if (dr < 0) d = df == 0 ? 0 : df > 0 ? 1 : 2;
    else if (dr == 0) d = df > 0 ? 3 : 4;
    else d = df == 0 ? 5 : df > 0 ? 6 : 7;
    return 81 * (d + (m.promo ? 10 : 0)) + to;
}
static void checkFeatures(__Board& b, const Pos& q, Rng& r) {
    mon::crumb("features %s", q.sfen().c_str());
    mon::eval(); mon::distinct(q.sfen(false));
    const int G = 16; const float GV = 77.25f;
    auto cmp = [&](const std::vector<float>& got, const std::vector<float>& want, const char* key) {
        for (size_t i = 0; i < want.size(); i++) if (got[i + G] != want[i]) { mon::violation(key, q.sfen() + " plane " + std::to_string(i / 81) + " sq " + std::to_string(i % 81) + " got " + std::to_string(got[i + G])); break; }
        for (int i = 0; i < G; i++) if (got[i] != GV || got[got.size() - 1 - i] != GV) { mon::violation(std::string(key) + "-overrun", q.sfen()); break; }
        mon::count("planes", (long)want.size() / 81);
    };
    std::vector<float> want(28 * 81, 0), got(28 * 81 + 2 * G, 0);
    for (int i = 0; i < G; i++) got[i] = got[got.size() - 1 - i] = GV;
    for (int s = 0; s < 81; s++) if (q.bd[s]) want[(14 * ref::colorOf(q.bd[s]) + ref::typeOf(q.bd[s]) - 1) * 81 + s] = 1;
    b.piece_planes((char*)(got.data() + G)); cmp(got, want, "piece_planes");
    std::fill(got.begin() + G, got.end() - G, 0.f); std::fill(want.begin(), want.end(), 0.f);
    Pos v = q.turn ? q.rotated() : q;
    for (int s = 0; s < 81; s++) if (v.bd[s]) want[(14 * ref::colorOf(v.bd[s]) + ref::typeOf(v.bd[s]) - 1) * 81 + s] = 1;
    b.piece_planes_rotate((char*)(got.data() + G)); cmp(got, want, "piece_planes_rotate");
    // dlshogi
    for (int ny = 0; ny < 2; ny++) {
        __dlshogi_use_nyugyoku_features(ny);
        int n1 = __dlshogi_get_features1_num(), n2 = __dlshogi_get_features2_num();
        if (n1 != 62) mon::violation("features1_num", std::to_string(n1));
        if (n2 != 57 + (ny ? 62 : 0)) mon::violation("features2_num", std::to_string(n2));
        std::vector<float> f1(62 * 81 + 2 * G, 0.5f), f2((57 + (ny ? 62 : 0)) * 81 + 2 * G, ny && r.chance(50) ? 0.f : 0.5f);
        // documented calling convention: the caller passes arrays it may reuse
        for (int i = 0; i < G; i++) f1[i] = f1[f1.size() - 1 - i] = f2[i] = f2[f2.size() - 1 - i] = GV;
        b._dlshogi_make_input_features((char*)(f1.data() + G), (char*)(f2.data() + G));
        std::vector<float> w1(62 * 81, 0), w2((57 + (ny ? 62 : 0)) * 81, 0);
        for (int c = 0; c < 2; c++) for (int s = 0; s < 81; s++) {
            int base = c * 31;
            if (v.bd[s] && ref::colorOf(v.bd[s]) == c) w1[(base + ref::typeOf(v.bd[s]) - 1) * 81 + s] = 1;
            int cnt = 0;
            for (int a = 0; a < 81; a++) if (v.bd[a] && ref::colorOf(v.bd[a]) == c && v.attacks(a, s)) { cnt++; w1[(base + 14 + ref::typeOf(v.bd[a]) - 1) * 81 + s] = 1; }
            for (int k = 0; k < std::min(3, cnt); k++) w1[(base + 28 + k) * 81 + s] = 1;
        }
        static const int HM[7] = { 8, 4, 4, 4, 4, 2, 2 };
        for (int c = 0; c < 2; c++) { int p = c * 28; for (int i = 0; i < 7; i++) { for (int k = 0; k < std::min(v.hand[c][i], HM[i]); k++) std::fill_n(w2.begin() + (p + k) * 81, 81, 1.f); p += HM[i]; } }
        if (v.inCheck()) std::fill_n(w2.begin() + 56 * 81, 81, 1.f);
        if (ny) for (int c = 0; c < 2; c++) { // c: 0 = side to move
            int base = 57 + c * 31, cnt = 0, pts = 0; int real = q.turn ^ c; bool kin = false;
            for (int s = 0; s < 81; s++) if (v.bd[s] && ref::colorOf(v.bd[s]) == c && Pos::inZone(c, s)) { int d = ref::demote(ref::typeOf(v.bd[s])); if (d == ref::K) kin = true; else { cnt++; pts += d == ref::R || d == ref::B ? 5 : 1; } }
            for (int i = 0; i < 7; i++) pts += v.hand[c][i] * (i >= 5 ? 5 : 1);
            if (kin) std::fill_n(w2.begin() + base * 81, 81, 1.f);
            int rest = 10 - cnt; if (rest < 10) std::fill_n(w2.begin() + (base + 1 + std::max(0, rest)) * 81, 81, 1.f);
            int rp = (real == 0 ? 28 : 27) - pts; if (rp < 20) std::fill_n(w2.begin() + (base + 11 + std::max(0, rp)) * 81, 81, 1.f);
            if (kin) mon::count("nyugyoku.king_in_zone");
        }
        cmp(f1, w1, ny ? "features1-nyugyoku" : "features1"); cmp(f2, w2, ny ? "features2-nyugyoku" : "features2");
    }
    __dlshogi_use_nyugyoku_features(false);
    std::map<int, std::string> labs;
    for (auto& m : q.legalMoves()) {
        int l = __dlshogi_make_move_label(ref::encode(m), q.turn);
        if (l < 0 || l >= 27 * 81) mon::violation("label-range", q.sfen() + " " + ref::usi(m));
        if (l != refLabel(m, q.turn)) mon::violation("label-value", q.sfen() + " " + ref::usi(m) + " got " + std::to_string(l) + " want " + std::to_string(refLabel(m, q.turn)));
        auto it = labs.emplace(l, ref::usi(m)); if (!it.second) mon::violation("label-collision", q.sfen() + " " + ref::usi(m) + " " + it.first->second);
        mon::count("labels");
    }
}
// ---- C13 -------------------------------------------------------------------
static void runNyugyoku(const mon::Opt& o) {
    Rng r(o.seed * 1299709ull + o.shard);
    for (long g = 0; g < o.cases; g++) {
        Pos q; q.turn = r.below(2); q.ply = 1 + r.below(500);
        const int me = q.turn, op = me ^ 1;
        auto zone = [&](int c) { return ref::sqOf(r.below(9), c == 0 ? r.below(3) : 6 + r.below(3)); };
        int km = r.chance(90) ? zone(me) : r.below(81), ko = r.below(81); if (km == ko) { g--; continue; }
        q.bd[km] = ref::mk(me, ref::K); q.bd[ko] = ref::mk(op, ref::K);
        int target = 8 + r.below(5), placed = 0;
        int big = r.below(5);
        for (int i = 0; i < 7; i++) for (int k = 0; k < ref::MAXCNT[i]; k++) {
            int t = ref::HAND_TYPE[i]; bool isBig = i >= 5;
            bool mine = isBig ? (big-- > 0) : r.chance(62);
            if (mine && placed < target && r.chance(isBig ? 60 : 50)) {
                int s = zone(me); int ty = t; if (ref::promotable(t) && r.chance(60)) ty += 8;
                if (!q.bd[s] && !(ty == t && (Pos::deadEnd(me, t, s) || (t == ref::P && q.hasPawnOnFile(me, ref::fileOf(s)))))) { q.bd[s] = ref::mk(me, ty); placed++; continue; }
            }
            int c = mine ? me : op;
            if (r.chance(mine ? 45 : 60)) { q.hand[c][i]++; continue; }
            int s = r.below(81); int ty = t; if (ref::promotable(t) && r.chance(40)) ty += 8;
            if (q.bd[s] || (ty == t && (Pos::deadEnd(c, t, s) || (t == ref::P && q.hasPawnOnFile(c, ref::fileOf(s)))))) { q.hand[c][i]++; continue; }
            q.bd[s] = ref::mk(c, ty);
        }
        // prune surplus points to sit close to the threshold
        for (int it = 0; it < 40; it++) {
            Pos z = q; int pts = 0; for (int s = 0; s < 81; s++) if (z.bd[s] && ref::colorOf(z.bd[s]) == me && Pos::inZone(me, s) && ref::typeOf(z.bd[s]) != ref::K) { int d = ref::demote(ref::typeOf(z.bd[s])); pts += d == ref::B || d == ref::R ? 5 : 1; }
            for (int i = 0; i < 7; i++) pts += z.hand[me][i] * (i >= 5 ? 5 : 1);
            int want = 26 + r.below(4); if (pts <= want) break;
            int i = r.below(7); if (q.hand[me][i]) { q.hand[me][i]--; q.hand[op][i]++; }
        }
        if (!q.valid()) { mon::count("skip.invalid"); continue; }
        mon::crumb("nyugyoku %s", q.sfen().c_str());
        auto one = [&](const Pos& p) {
            __Board b(p.sfen()); bool got = b.is_nyugyoku(), want = p.declareWin(); mon::eval(); mon::distinct(p.sfen(false));
            mon::count(want ? "declare.yes" : "declare.no"); if (got != want) mon::violation("nyugyoku", p.sfen() + (want ? " should be declarable" : " should not be declarable"));
            int k = p.king(p.turn), n = 0, pts = 0; for (int s = 0; s < 81; s++) if (p.bd[s] && ref::colorOf(p.bd[s]) == p.turn && Pos::inZone(p.turn, s) && ref::typeOf(p.bd[s]) != ref::K) { n++; int d = ref::demote(ref::typeOf(p.bd[s])); pts += d == ref::B || d == ref::R ? 5 : 1; }
            for (int i = 0; i < 7; i++) pts += p.hand[p.turn][i] * (i >= 5 ? 5 : 1);
            bool kz = Pos::inZone(p.turn, k), ck = p.inCheck(), pn = n >= 10, pp = pts >= (p.turn ? 27 : 28);
            int fails = !kz + ck + !pn + !pp; if (fails == 1) mon::count(!kz ? "only.king_outside" : ck ? "only.in_check" : !pn ? "only.too_few_pieces" : "only.too_few_points");
            if (pts == (p.turn ? 27 : 28)) mon::count("points.exact"); if (n == 10) mon::count("pieces.exact");
        };
        one(q); one(q.rotated());
        Pos w = q; w.turn ^= 1; if (w.valid()) one(w);
        if (g < 2) mon::sample(q.sfen());
    }
}

int main(int argc, char** argv) {
    mon_install();
    mon::Opt o = mon::parse(argc, argv);
    initTable(); Position::initZobrist(); HuffmanCodedPos_init(); PackedSfen_init(); Book_init();
    if (o.mode == "movegen") walk(o, [](__Board& b, const Pos& q, Rng&) { checkMovegen(b, q); });
    else if (o.mode == "legality") { long n = 0; walk(o, [&](__Board& b, const Pos& q, Rng& r) { checkLegality(b, q, r, n++ % 8 == 0); }); }
    else if (o.mode == "state") runState(o);
    else if (o.mode == "repetition") runRepetition(o);
    else if (o.mode == "codec") walk(o, checkCodec);
    else if (o.mode == "keys") walk(o, checkKeys);
    else if (o.mode == "moves") walk(o, checkMoves);
    else if (o.mode == "features") walk(o, checkFeatures);
    else if (o.mode == "nyugyoku") runNyugyoku(o);
    else { fprintf(stderr, "unknown mode\n"); return 9; }
    mon::finish();
    return 0;
}
