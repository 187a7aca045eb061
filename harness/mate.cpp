// Monitors over the mate searches.
#include "ref.hpp"
#include <thread>
#include <atomic>
#include <unistd.h>
#include "solve.hpp"
#include "common.hpp"
#include <climits>
#include <tuple>
#include <algorithm>
#include <memory>
#include "cshogi.h"
using ref::Pos; using ref::Rng; using ref::Solver; typedef ref::Move RM;

using ref::mateish;
// Positions where one kind of check or of defence decides (data/critical.txt), rotated and mirrored at random.
static std::vector<std::string> corpus;
static void loadCorpus(const std::string& file) {
    FILE* f = fopen(file.c_str(), "r"); char l[512]; if (!f) { fprintf(stderr, "no corpus %s\n", file.c_str()); exit(3); }
    while (fgets(l, sizeof l, f)) { std::string s(l); while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); if (s.size() > 4 && (s[0] == 'A' || s[0] == 'D') && s[1] == ' ') corpus.push_back(s); }
    fclose(f); if (corpus.empty()) { fprintf(stderr, "empty corpus\n"); exit(3); }
}
static Pos critical(const mon::Opt& o, Rng& r, long g) {
    const std::string& l = corpus[(size_t)((o.seed * 7919 + (uint64_t)g * o.shards + o.shard) % corpus.size())];
    size_t a = l.find(' ', 2), b = l.find(' ', a + 1); mon::count(std::string("critical.") + l[0] + l.substr(a + 1, b - a - 1));
    Pos p, q; Pos::parse(l.substr(b + 1), p); q = p; bool mirror = r.chance(50), turn = r.chance(50);
    for (int s = 0; s < 81; s++) {
        int f = ref::fileOf(s), rk = ref::rankOf(s), pc = p.bd[s]; if (mirror) f = 8 - f; if (turn) { f = 8 - f; rk = 8 - rk; if (pc) pc = ref::mk(ref::colorOf(pc) ^ 1, ref::typeOf(pc)); }
        q.bd[ref::sqOf(f, rk)] = pc;
    }
    if (turn) { q.turn = p.turn ^ 1; for (int i = 0; i < 7; i++) std::swap(q.hand[0][i], q.hand[1][i]); }
    return q;
}
// Positions with very many evasions or very many checks, slightly changed each time.
static Pos wide(Rng& r) {
    static const char* const BASE[] = {
        "9/G+P+P+PSS+B2/r7K/LG+PSG+P+P2/1NlN2NL1/9/9/6k2/9 b RBGSNL4P8p 295", "9/+PS+P+P+BSG2/r7K/+P+PS+PG+P+P2/2N1N1N2/2k6/9/9/1L+L4L1 b RBGSNLPg9p 295",
        "9/G+P+P+PSS+B2/8K/LG+PSG+P+P2/1NlN2NL1/9/9/6k2/9 w RBGSNL4Pr8p 294", "9/+PS+P+P+BSG2/8K/+P+PS+PG+P+P2/2N1N1N2/2k6/9/9/1L+L4L1 w RBGSNLPrg9p 294",
        "9/9/ppppppppp/3k5/9/4K4/9/9/9 b 2R2B4G4S4N4L9P 1" };
    for (;;) {
        Pos q; Pos::parse(BASE[r.below(5)], q);
        for (int n = r.below(4); n > 0; n--) {
            int a = r.below(81), b = r.below(81), c = r.below(2), i = r.below(7);
            switch (r.below(4)) {
            case 0: std::swap(q.bd[a], q.bd[b]); break;
            case 1: if (q.bd[a] && ref::typeOf(q.bd[a]) != ref::K) { q.hand[c][ref::handIdx(ref::demote(ref::typeOf(q.bd[a])))]++; q.bd[a] = 0; } break;
            case 2: if (q.hand[c][i] && !q.bd[a]) { q.hand[c][i]--; int t = ref::HAND_TYPE[i]; q.bd[a] = ref::mk(r.below(2), ref::promotable(t) && r.chance(40) ? t + 8 : t); } break;
            default: if (q.hand[c][i]) { q.hand[c][i]--; q.hand[c ^ 1][i]++; }
            }
        }
        if (r.chance(50)) q = q.rotated();
        if (q.valid()) return q;
    }
}
// A piece of the side to move stands between its own slider and the king, so that moving it may uncover a check; the king is hemmed in by its own men.
static Pos veiled(Rng& r) {
    using namespace ref;
    for (;;) {
        Pos q; q.turn = r.below(2); q.ply = 1 + r.below(200); const int me = q.turn, op = me ^ 1;
        int kf = r.below(9), kr = r.chance(70) ? r.below(3) : r.below(9); if (op == BLACK) kr = 8 - kr;
        int k = sqOf(kf, kr); q.bd[k] = ref::mk(op, K);
        int cnt[7]; for (int i = 0; i < 7; i++) cnt[i] = MAXCNT[i];
        auto put = [&](int c, int s, int t) {
            int i = handIdx(demote(t)); if (q.bd[s] || !cnt[i]) return false;
            if (t < K && (Pos::deadEnd(c, t, s) || (t == P && q.hasPawnOnFile(c, fileOf(s))))) return false;
            q.bd[s] = ref::mk(c, t); cnt[i]--; return true;
        };
        static const int D[8][2] = { { 0, 1 }, { 0, -1 }, { 1, 0 }, { -1, 0 }, { 1, 1 }, { 1, -1 }, { -1, 1 }, { -1, -1 } };
        const int* d = D[r.below(8)]; bool diag = d[0] && d[1];
        int far = 2 + r.below(5), mid = 1 + r.below(far - 1);
        if (!onBoard(kf + d[0] * far, kr + d[1] * far)) continue;
        int sl = sqOf(kf + d[0] * far, kr + d[1] * far), vs = sqOf(kf + d[0] * mid, kr + d[1] * mid);
        int st = diag ? (r.chance(60) ? B : B + 8) : (d[0] == 0 && (d[1] > 0) == (me == BLACK) && r.chance(30)) ? L : r.chance(60) ? R : R + 8;
        if (!put(me, sl, st)) continue;
        static const int V[] = { P, L, N, S, S, N, G, B, R, P + 8, S + 8, B + 8, R + 8, N, P };
        if (!put(me, vs, V[r.below(15)])) continue;
        for (int i = 0; i < 8; i++) { int f = kf + D[i][0], rr = kr + D[i][1]; if (onBoard(f, rr) && r.chance(45)) { int t = HAND_TYPE[r.below(7)]; put(r.chance(80) ? op : me, sqOf(f, rr), r.chance(25) && promotable(t) ? t + 8 : t); } }
        for (int n = r.below(6); n > 0; n--) { int t = HAND_TYPE[r.below(7)]; put(r.chance(60) ? me : op, r.below(81), r.chance(25) && promotable(t) ? t + 8 : t); }
        int mk = r.below(81); if (q.bd[mk]) continue; q.bd[mk] = ref::mk(me, K);
        for (int i = 0; i < 7; i++) while (cnt[i]) { cnt[i]--; if (r.chance(40)) q.hand[r.chance(75) ? op : me][i]++; }
        if (r.chance(40)) { for (int i = 0; i < 7; i++) if (r.chance(80)) q.hand[op][i] = 0; }
        if (!q.valid()) continue;
        return q;
    }
}
static bool inList(const std::vector<RM>& v, int e, RM* o = nullptr) { for (auto& m : v) if (ref::encode(m) == e) { if (o) *o = m; return true; } return false; }
static std::string cls(const Pos& q, const RM& m) {
    static const char* T = "?PLNSBRGKplnsbr";
    Pos a = q.after(m); int k = a.king(a.turn); bool direct = a.attacks(m.to, k); int n = a.attackerCount(k, q.turn);
    return std::string(m.from < 0 ? "drop" : m.promo ? "promo" : "move") + T[m.pt] + (n > 1 ? "-double" : direct ? "" : "-discovered");
}
// a mate given by a piece on one of the eight squares around the king, or by a knight, without a second checker
static bool contact(const Pos& q, const RM& m) {
    Pos a = q.after(m); int k = a.king(a.turn); if (a.attackerCount(k, q.turn) != 1 || !a.attacks(m.to, k)) return false;
    int df = std::abs(ref::fileOf(k) - ref::fileOf(m.to)), dr = std::abs(ref::rankOf(k) - ref::rankOf(m.to));
    return std::max(df, dr) == 1 || ref::typeOf(a.bd[m.to]) == ref::N;
}
// The mates a fixed-depth search cannot miss: with two plies left, no defence gives check and each is answered by an adjacent or knight mate.
struct Plain {
    long nodes = 0, limit; explicit Plain(long l) : limit(l) {}
    bool out() const { return nodes > limit; }
    static bool mate1(const Pos& q) { std::vector<RM> c; Solver::checks(q, c); for (auto& m : c) if (contact(q, m) && q.after(m).isMate()) return true; return false; }
    bool orNode(const Pos& q, int n) {
        nodes++; if (out()) return false;
        std::vector<RM> c; Solver::checks(q, c);
        for (auto& m : c) { if (andNode(q.after(m), n - 1)) return true; if (out()) return false; }
        return false;
    }
    bool andNode(const Pos& q, int n) {
        nodes++; if (out()) return false;
        for (auto& m : q.legalMoves()) {
            if (n == 0) return false;
            Pos a = q.after(m);
            if (n == 2 ? a.inCheck() || !mate1(a) : !orNode(a, n - 1)) return false;
        }
        return true;
    }
};
static void runMate1(const mon::Opt& o) {
    Rng r(o.seed * 104729ull + o.shard);
    for (long g = 0; g < o.cases; g++) {
        Pos q = !corpus.empty() ? critical(o, r, g) : r.chance(30) ? veiled(r) : r.chance(80) ? mateish(r, 1) : ref::randomSetup(r, r.below(2));
        mon::crumb("mate1 %s", q.sfen().c_str());
        __Board b(q.sfen()); mon::eval();
        if (q.inCheck()) { mon::count("incheck"); }
        std::string key = b.toSFEN(); auto k0 = b.getKey();
        int got = b.mateMoveIn1Ply();
        if (b.toSFEN() != key || b.getKey() != k0) mon::violation("mate1-disturbs", key);
        std::vector<RM> v = q.legalMoves(); RM m; std::vector<RM> mates;
        for (auto& x : v) { Pos a = q.after(x); if (a.isMate()) mates.push_back(x); }
        if (got) {
            mon::distinct(q.sfen(false));
            if (!inList(v, got, &m)) mon::violation(q.inCheck() ? "mate1-illegal-incheck" : "mate1-illegal", q.sfen() + " " + __move_to_usi(got));
            else if (!q.after(m).isMate()) mon::violation(q.inCheck() ? "mate1-not-mate-incheck" : "mate1-not-mate", q.sfen() + " " + __move_to_usi(got));
            if (contact(q, m)) mon::count("claims.contact"); mon::count(q.inCheck() ? "claims.incheck" : "claims"); if (g < 30) mon::sample(q.sfen() + " " + __move_to_usi(got));
        } else if (!mates.empty() && !q.inCheck()) {
            mon::count("missed"); std::string c; for (auto& x : mates) c = cls(q, x);
            mon::count("missed." + cls(q, mates[0]));
            for (auto& x : mates) if (contact(q, x)) { mon::violation("mate1-missed-contact", q.sfen() + " " + ref::usi(x)); break; }
            if (o.arg == "v") printf("MISS %s %s\n", q.sfen().c_str(), ref::usi(mates[0]).c_str());
        } else if (!mates.empty()) mon::violation("mate1-missed-incheck", q.sfen() + " " + ref::usi(mates[0]));
        else mon::count("none");
    }
}
static void runMateN(const mon::Opt& o) {
    Rng r(o.seed * 1299827ull + o.shard);
    for (long g = 0; g < o.cases; g++) {
        bool w = corpus.empty() && r.chance(2); Pos q = !corpus.empty() ? critical(o, r, g) : w ? wide(r) : r.chance(15) ? veiled(r) : mateish(r, 3);
        if (r.chance(corpus.empty() ? 20 : 30)) { auto v = q.legalMoves(); std::vector<RM> c; for (auto& m : v) if (q.after(m).inCheck()) c.push_back(m); if (!c.empty()) q.apply(c[r.below((int)c.size())]); }
        // some boards carry the moves that led to the position, often a return to where they began: then an old position is no way to mate, but what is claimed still holds
        std::string from = q.sfen(); std::vector<int> played;
        if (!w && corpus.empty() && r.chance(25)) {
            for (int lap = 1 + r.below(2); lap > 0; lap--) {
                Pos p = q; std::vector<RM> way;
                for (int k = 0; k < 2; k++) {
                    auto v = p.legalMoves(); std::vector<RM> c; for (auto& m : v) if (m.from >= 0 && !m.cap && !m.promo && m.pt != ref::P && m.pt != ref::L && m.pt != ref::N && p.after(m).bd[m.from] == 0) c.push_back(m);
                    std::vector<RM> ck; if (k == 0) for (auto& m : c) if (p.after(m).inCheck()) ck.push_back(m);
                    if (!ck.empty() && r.chance(60)) c = ck;
                    if (c.empty()) break; way.push_back(c[r.below((int)c.size())]); p.apply(way.back());
                }
                if (way.size() < 2) break;
                bool home = true;
                for (int k = 0; k < 2 && home; k++) { home = false; for (auto& m : p.legalMoves()) if (m.from == way[k].to && m.to == way[k].from && !m.promo) { way.push_back(m); p.apply(m); home = true; break; } }
                if (!home && r.chance(50)) way.resize(2);
                for (auto& m : way) { played.push_back(ref::encode(m)); q.apply(m); }
                if (way.size() < 4) break;
            }
            // and one step beyond: the search meets the old positions deeper down
            if (!played.empty() && r.chance(50)) for (int k = 0; k < 2; k++) {
                auto v = q.legalMoves(); std::vector<RM> c; for (auto& m : v) if (m.from >= 0 && !m.cap && !m.promo && (k || q.after(m).inCheck()) && q.after(m).legalMoves().size()) c.push_back(m);
                if (c.empty()) break; RM m = c[r.below((int)c.size())]; played.push_back(ref::encode(m)); q.apply(m);
            }
            if (!played.empty()) mon::count("with_history");
        }
        __Board b(from); for (int m : played) b.push(m);
        std::string S = q.sfen(); auto k0 = b.getKey(); std::string ctx = S; if (!played.empty()) { ctx += " from " + from + " moves"; for (int m : played) ctx += " " + __move_to_usi(m); }
        mon::crumb("mateN %s", ctx.c_str());
        if (b.toSFEN() != S) { mon::violation("mate-setup", ctx); continue; }
        for (int n : { 3, 5, 7 }) {
            if (n == 7 && (w || !r.chance(played.empty() ? 6 : 30))) continue;
            mon::eval();
            int got = b.mateMove(n);
            if (b.toSFEN() != S || b.getKey() != k0 || b.get_history().size() != played.size()) mon::violation("mate-disturbs", ctx);
            if (got) {
                RM m; std::vector<RM> v = q.legalMoves();
                if (!inList(v, got, &m)) { mon::violation("mate-illegal", ctx + " " + std::to_string(n) + " " + __move_to_usi(got)); continue; }
                Solver s; s.limit = 400000; Pos a = q.after(m); bool ok = a.inCheck() && s.andNode(a, n - 1);
                if (s.out()) mon::count("inconclusive"); else if (!ok) mon::violation("mate-unsound", ctx + " ply " + std::to_string(n) + " " + __move_to_usi(got));
                else { mon::count("claims." + std::to_string(n)); mon::distinct(S); }
            } else if (played.empty()) {
                Plain s(n == 3 ? 20000 : r.chance(30) ? 12000 : 0); bool has = s.orNode(q, n);
                if (!s.out() && has) mon::violation("mate-missed", S + " ply " + std::to_string(n));
                else mon::count((s.out() ? "none.unknown." : "none.") + std::to_string(n));
            } else mon::count("none.with_history");
        }
        if (q.inCheck()) for (int n : { 2, 4, 6 }) {
            if (n == 6 && (w || !r.chance(10))) continue;
            mon::eval(); bool got = b.is_mate(n);
            if (b.toSFEN() != S || b.getKey() != k0) mon::violation("is_mate-disturbs", ctx);
            Solver s; s.limit = n == 2 ? 60000 : 400000; bool want = s.andNode(q, n);
            if (s.out()) mon::count("inconclusive");
            else if (got && !want) mon::violation("is_mate-unsound", ctx + " " + std::to_string(n));
            else { mon::count(std::string("is_mate.") + (got ? "yes" : "no")); if (got && n == 6) mon::count("is_mate.6.yes");
                if (!got && want) { mon::count("is_mate.missed"); Plain s2(60000); if (played.empty() && s2.andNode(q, n) && !s2.out()) mon::violation("is_mate-missed", S + " " + std::to_string(n)); } }
        }
        if (g < 3) mon::sample(S);
    }
}

// ---- df-pn searchers ---------------------------------------------------------------------------
// Decides a claimed mate with the reference model; the searcher under test only supplies move-ordering hints.
template <class S> struct Guided {
    S& s; __Board& b; long nodes = 0, limit; std::map<std::string, int> memo; std::set<std::string> path;
    Guided(S& s, __Board& b, long l) : s(s), b(b), limit(l) {}
    bool out() const { return nodes > limit; }
    // attacker to move
    bool orNode(const Pos& q, int d) {
        nodes++; if (out() || d > 60) { nodes = limit + 1; return false; }
        std::string k = q.sfen(false); auto it = memo.find(k); if (it != memo.end()) return it->second;
        if (!path.insert(k).second) return false;   // repetition on the path: not a mate by this route
        std::vector<RM> c; Solver::checks(q, c); bool ok = false;
        for (auto& m : c) if (q.after(m).isMate()) { ok = true; break; }
        if (!ok) {
            int hint = s.get_move(b); std::stable_partition(c.begin(), c.end(), [&](const RM& m) { return ref::encode(m) == hint; });
            bool hinted = !c.empty() && ref::encode(c[0]) == hint;
            for (size_t i = 0; i < c.size() && !ok; i++) {
                if (!(i == 0 && hinted)) { Solver sv; sv.limit = 20000; nodes += 1; Pos a = q.after(c[i]); if (!sv.andNode(a, 4) ) { if (sv.out()) nodes = limit + 1; continue; } ok = true; break; }
                Pos a = q.after(c[i]); b.push(ref::encode(c[i])); ok = andNode(a, d + 1); b.pop(); if (out()) break;
            }
        }
        path.erase(k); if (out()) return false; memo[k] = ok; return ok;
    }
    bool andNode(const Pos& q, int d) {
        nodes++; if (out()) return false;
        if (!q.inCheck()) return false;
        for (auto& m : q.legalMoves()) {
            Pos a = q.after(m); b.push(ref::encode(m)); bool ok = orNode(a, d + 1); b.pop();
            if (!ok) return false;
        }
        return true;
    }
};
static void setHash(__DfPn&, int) {}
static void setHash(__OslDfPn& s, int mb) { s.set_hash(mb); }
template <class S, class Other> static void runDfpn(const mon::Opt& o, bool osl) {
    Rng r(o.seed * 15485863ull + o.shard + (osl ? 77 : 0));
    std::unique_ptr<S> reused; int reuse = 0, hash = 0;
    for (long g = 0; g < o.cases; g++) {
        Pos q = !corpus.empty() ? critical(o, r, g) : r.chance(4) ? wide(r) : r.chance(85) ? mateish(r, 5) : ref::randomSetup(r, r.below(2)); if (q.inCheck() && q.legalMoves().size() > 90) mon::count("wide");
        int lim = (const int[]){ 50, 1000, 20000, 20000, 20000 }[r.below(5)]; int depth = r.chance(70) ? 1600 : 1 + 2 * r.below(6);
        int drawPly = r.chance(80) ? 2147483646 : q.ply + r.below(8);
        const bool free = !corpus.empty() || r.chance(45); if (free) { lim = 20000; depth = 1600; drawPly = 2147483646; }
        // some boards carry the moves that led to the position
        std::vector<int> played; std::string from = q.sfen();
        if (!free && r.chance(50)) for (int k = 1 + r.below(8); k > 0; k--) {
            auto v = q.legalMoves(); if (v.empty()) break;
            std::vector<RM> c; Solver::checks(q, c); RM m = r.chance(60) && !c.empty() ? c[r.below((int)c.size())] : v[r.below((int)v.size())];
            if (q.after(m).legalMoves().empty()) break;
            played.push_back(ref::encode(m)); q.apply(m);
        }
        if (!played.empty()) { mon::count("with_history"); if (drawPly < 2147483646) drawPly = q.ply + r.below(8); }
        std::string S0 = q.sfen(); __Board b(from); for (int m : played) b.push(m); auto k0 = b.getKey();
        if (b.toSFEN() != S0) { mon::violation("dfpn-setup", from + " -> " + b.toSFEN()); continue; }
        mon::crumb("dfpn %s nodes %d depth %d draw %d", S0.c_str(), lim, depth, drawPly);
        if (!reused || --reuse <= 0) { reused.reset(new S(depth, lim, drawPly)); reuse = 1 + r.below(6); hash = r.chance(20) ? 1 + r.below(8) : 0; if (hash) { setHash(*reused, hash); mon::count("set_hash"); } }
        else { reused->set_maxdepth(depth); reused->set_max_search_node(lim); reused->set_draw_ply(drawPly); mon::count("reused"); }
        S& s = *reused; mon::eval();
        std::string ctx = S0 + " nodes " + std::to_string(lim) + " depth " + std::to_string(depth) + " draw_ply " + std::to_string(drawPly);
        if (!played.empty()) { ctx += " from " + from + " moves"; for (int m : played) ctx += " " + __move_to_usi(m); }
        bool got = s.search(b); long nodes = s.get_searched_node();
        if (b.toSFEN() != S0 || b.getKey() != k0 || b.get_history().size() != played.size()) mon::violation("dfpn-disturbs", ctx + " -> " + b.toSFEN());
        if (nodes > (osl ? 4L * lim + 1000 : lim + 1L))   // OslDfPn restarts with growing limits and reports the sum
            mon::violation("dfpn-node-limit", ctx + " searched " + std::to_string(nodes));
        mon::maxi("nodes", nodes);
        { S f(depth, lim, drawPly); if (hash) setHash(f, hash); __Board b2(b); bool g2 = f.search(b2); if (g2 != got || (long)f.get_searched_node() != nodes || f.pv != s.pv) mon::violation("dfpn-not-reproducible", ctx + (got ? " mate" : " none") + " then " + (g2 ? "mate" : "none")); }
        std::vector<RM> v = q.legalMoves();
        if (got) {
            mon::distinct(S0); mon::count("claims");
            // the move
            int mv = s.get_move(b); RM m;
            if (!inList(v, mv, &m)) { mon::violation("dfpn-move-illegal", ctx + " " + __move_to_usi(mv)); continue; }
            if (!q.after(m).inCheck()) mon::violation("dfpn-move-no-check", ctx + " " + __move_to_usi(mv));
            // the principal variation: legal, alternating check and evasion, ending in mate
            std::string line; Pos p = q; bool bad = s.pv.empty();
            for (size_t i = 0; i < s.pv.size() && !bad; i++) {
                line += " " + __move_to_usi(s.pv[i]); RM x; if (!inList(p.legalMoves(), (int)s.pv[i], &x)) { bad = true; break; }
                p = p.after(x); if (i % 2 == 0 && !p.inCheck()) bad = true;
            }
            if (bad) mon::violation("dfpn-pv-illegal", ctx + " pv" + line);
            else if (!p.isMate()) mon::violation("dfpn-pv-no-mate", ctx + " pv" + line);
            if (!bad && s.pv.size() % 2 == 0) mon::violation("dfpn-pv-even", ctx + " pv" + line);
            mon::maxi("pv", s.pv.size()); if (s.pv.size() >= 5) mon::count("pv.long");
            if (!bad && (long)s.pv.size() > depth) mon::count("pv.beyond_depth");   // through transpositions
            if (b.toSFEN() != S0 || b.getKey() != k0) mon::violation("dfpn-query-disturbs", ctx);
            // is it a mate at all?
            Guided<S> gd(s, b, 3000); Pos a = q.after(m); b.push(mv); bool ok = gd.andNode(a, 1); b.pop();
            if (!gd.out() && ok) mon::count("confirmed");
            else { ref::DfpnRef x; x.limit = 30000; int w = x.solve(a, false, 60);
                if (w == 0) mon::violation("dfpn-unsound", ctx + " " + __move_to_usi(mv)); else mon::count(w > 0 ? "confirmed" : "inconclusive"); }
            if (g < 40) mon::sample(S0 + " pv" + line);
        } else {
            Solver sv; sv.limit = 30000; RM best; int n = sv.orNode(q, 1, &best) ? 1 : sv.orNode(q, 3, &best) ? 3 : sv.orNode(q, 5, &best) ? 5 : 0;
            if (sv.out()) mon::count("none.unknown");
            else if (!n) {
                mon::count("none.no_short_mate");
                // a denial short of the budget, without other limits: no mate that the other searcher finds and the reference confirms
                if (nodes * (osl ? 2 : 1) < lim && depth == 1600 && drawPly == 2147483646 && played.empty()) {
                    mon::count("denied"); Other x(1600, 20000, 2147483646); __Board b2(b); mon::crumb("denied %s", S0.c_str());
                    if (x.search(b2)) {
                        RM m; Pos a = q; int mv = x.get_move(b2); int w = -1;
                        if (inList(v, mv, &m)) { a = q.after(m); Guided<Other> gd(x, b2, 3000); b2.push(mv); bool ok = gd.andNode(a, 1); b2.pop(); w = !gd.out() && ok ? 1 : -1;
                            if (w < 0) { ref::DfpnRef y; y.limit = 30000; w = y.solve(a, false, 60); } }
                        if (w == 1) mon::violation("dfpn-denies", ctx + " denied with " + std::to_string(nodes) + " nodes, mate by " + __move_to_usi(mv)); else mon::count("denied.unconfirmed");
                    } else if ((long)x.get_searched_node() * (osl ? 1 : 2) < 20000) mon::count("denied.agreed");
                }
            }
            else if (nodes * (osl ? 2 : 1) >= lim) mon::count("none.out_of_nodes");
            else if (osl && (depth < 1600 || drawPly < 2147483646)) mon::count("none.abandoned_at_limit");   // OslDfPn gives up where it meets a depth limit
            else if (!played.empty()) mon::count("none.with_history");   // a return to an earlier position counts as a repetition
            else if (n > depth) mon::count("none.out_of_depth");
            else if (q.ply + n - 1 > drawPly) mon::count("none.out_of_plies");
            else mon::violation("dfpn-missed", ctx + " mate in " + std::to_string(n) + " " + ref::usi(best) + " nodes " + std::to_string(nodes));
        }
        // the same question from the defender's side
        if (r.chance(30)) {
            std::vector<RM> c; Solver::checks(q, c);
            if (!c.empty()) {
                RM m = c[r.below((int)c.size())]; if (got && r.chance(60)) inList(v, s.get_move(b), &m);
                Pos a = q.after(m); if (r.chance(10)) { Pos x = wide(r); if (x.inCheck()) a = x; } __Board ba(a.sfen()); auto ka = ba.getKey(); S t(1600, 20000, 2147483646);
                mon::crumb("dfpn and %s", a.sfen().c_str());
                bool ga = t.search_andnode(ba);
                if (ba.toSFEN() != a.sfen() || ba.getKey() != ka) mon::violation("dfpn-and-disturbs", a.sfen());
                if (ga) { Guided<S> gd(t, ba, 3000); bool ok = gd.andNode(a, 1); int w = !gd.out() && ok; if (!w) { ref::DfpnRef x; x.limit = 30000; w = x.solve(a, false, 60); } if (w == 0) mon::violation("dfpn-and-unsound", a.sfen()); else mon::count(w > 0 ? "and.confirmed" : "and.inconclusive"); }
                else { Solver sv; sv.limit = 30000; bool w = sv.andNode(a, 2) || sv.andNode(a, 4); if (sv.out() || !w) mon::count("and.none"); else if (t.get_searched_node() * (osl ? 2 : 1) >= 20000) mon::count("and.out_of_nodes"); else mon::violation("dfpn-and-missed", a.sfen()); }
            }
        }
    }
}
// Very wide positions through every searcher, for the sanitizers.
static void runWide(const mon::Opt& o) {
    Rng r(o.seed * 15485869ull + o.shard);
    for (long g = 0; g < o.cases; g++) {
        Pos q = wide(r); std::string S0 = q.sfen(); mon::crumb("wide %s", S0.c_str()); mon::eval(); mon::distinct(S0);
        __Board b(S0); auto k0 = b.getKey(); bool in = q.inCheck(); size_t n = q.legalMoves().size();
        std::vector<RM> c; Solver::checks(q, c); mon::maxi("checks", c.size()); if (in) { mon::maxi("evasions", n); if (n > 96) mon::count("evasions.over96"); }
        b.mateMoveIn1Ply(); b.mateMove(3); if (in) { b.is_mate(2); b.is_mate(4); }
        int lim = 100 + r.below(1500); __DfPn d(1600, lim, INT_MAX - 1); __OslDfPn e(1600, lim, INT_MAX - 1);
        d.search(b); e.search(b);
        if (in) { d.search_andnode(b); e.search_andnode(b); }
        if (b.toSFEN() != S0 || b.getKey() != k0) mon::violation("wide-disturbs", S0);
    }
}
// A search without limits, told to stop while it runs: it ends, the board is as before, what it claims holds, and the searcher works as a fresh one afterwards.
template <class S> static void runStop(const mon::Opt& o, bool osl) {
    Rng r(o.seed * 15485867ull + o.shard + (osl ? 77 : 0));
    for (long g = 0; g < o.cases; g++) {
        Pos q; bool hard = false;
        for (int k = 0; k < 60 && !hard; k++) {
            q = r.chance(50) ? mateish(r, 5) : ref::randomSetup(r, 1); __Board b(q.sfen()); S s(1600, 3000, 2147483646);
            hard = !s.search(b) && s.get_searched_node() >= 3000u / (osl ? 4 : 1);
        }
        if (!hard) continue;
        std::string S0 = q.sfen(); mon::crumb("stop %s", S0.c_str()); mon::eval(); mon::distinct(S0);
        __Board b(S0); S s(1600, 4000000000u, 2147483646); std::atomic<int> done(0); bool got = false; int wait = 1 + r.below(60);
        std::thread th([&] { got = s.search(b); done = 1; });
        usleep(wait * 1000); bool early = done; long ms = 0;
        // OslDfPn forgets a stop that comes before its search, so it is told until it has ended
        for (; !done && ms < 40000; ms += 5) { s.stop(true); usleep(5000); }
        if (!done) { mon::violation("stop-ignored", S0 + " still searching 40 s after stop"); mon::finish(); fflush(stdout); _exit(0); }
        th.join(); mon::count(early ? "ended_by_itself" : "stopped"); mon::maxi("stop_ms", ms);
        if (b.toSFEN() != S0) mon::violation("stop-disturbs", S0 + " -> " + b.toSFEN());
        if (got) { RM m; int mv = s.get_move(b); if (!inList(q.legalMoves(), mv, &m)) mon::violation("stop-move-illegal", S0); else { ref::DfpnRef x; x.limit = 30000; if (x.solve(q.after(m), false, 60) == 0) mon::violation("stop-unsound", S0 + " " + __move_to_usi(mv)); } }
        s.stop(false); s.set_max_search_node(2000); S f(1600, 2000, 2147483646); Pos q2 = mateish(r, 3); __Board b2(q2.sfen()), b3(q2.sfen());
        bool g1 = s.search(b2), g2 = f.search(b3);
        if (g1 != g2 || s.get_searched_node() != f.get_searched_node() || s.pv != f.pv) mon::violation("stop-lasts", q2.sfen() + (g1 ? " mate" : " none") + " after a stop, otherwise " + (g2 ? "mate" : "none"));
        // a stop that comes first: DfPn then looks no further than its first node
        s.stop(true); __Board b4(S0); bool g4 = osl ? false : s.search(b4);
        if (!osl && !g4 && s.get_searched_node() > 100) mon::violation("stop-first", S0 + " searched " + std::to_string(s.get_searched_node()));
    }
}
int main(int argc, char** argv) {
    mon_install();
    mon::Opt o = mon::parse(argc, argv);
    initTable(); Position::initZobrist(); HuffmanCodedPos_init(); PackedSfen_init(); Book_init();
    if (!o.arg.empty() && o.arg != "v") loadCorpus(o.arg);
    if (o.mode == "mate1") runMate1(o);
    else if (o.mode == "mateN") runMateN(o);
    else if (o.mode == "dfpn") runDfpn<__DfPn, __OslDfPn>(o, false);
    else if (o.mode == "osl") runDfpn<__OslDfPn, __DfPn>(o, true);
    else if (o.mode == "wide") runWide(o);
    else if (o.mode == "stop") runStop<__DfPn>(o, false);
    else if (o.mode == "oslstop") runStop<__OslDfPn>(o, true);
    else { fprintf(stderr, "unknown mode\n"); return 9; }
    mon::finish();
    return 0;
}
