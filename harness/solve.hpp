// Reference mate solver on the reference model: plain AND/OR search over checking moves and all legal replies.
#pragma once
#include "ref.hpp"
#include <unordered_map>
#include <algorithm>
namespace ref {
struct Solver {
    long nodes = 0, limit = 0;      // limit 0: none
    bool out() const { return limit && nodes > limit; }
    static void checks(const Pos& q, std::vector<Move>& o) {
        std::vector<Move> v; q.pseudo(v);
        const int k = q.king(q.turn ^ 1);
        if (k < 0) return;
        for (auto& m : v) {
            Pos a = q.after(m);
            if (!a.attacked(k, q.turn)) continue;
            if (q.king(q.turn) >= 0 && a.inCheck(q.turn)) continue;
            if (q.dropPawnMate(m)) continue;
            o.push_back(m);
        }
    }
    // attacker to move: is there a forced mate within n plies (n odd)?  best: the mating move
    bool orNode(const Pos& q, int n, Move* best = nullptr) {
        nodes++; if (out()) return false;
        std::vector<Move> v; checks(q, v);
        for (auto& m : v) {
            Pos a = q.after(m);
            if (andNode(a, n - 1)) { if (best) *best = m; return true; }
            if (out()) return false;
        }
        return false;
    }
    // defender to move, in check: is every reply mated within n plies (n even)?
    bool andNode(const Pos& q, int n) {
        nodes++; if (out()) return false;
        std::vector<Move> v; q.pseudo(v);
        // cheap refutations first: king moves, captures
        for (int pass = 0; pass < 2; pass++)
            for (auto& m : v) {
                bool first = m.from >= 0 && (m.pt == K || m.cap);
                if (first != (pass == 0)) continue;
                if (!q.legal(m)) continue;
                if (n == 0) return false;
                Pos a = q.after(m);
                if (!orNode(a, n - 1)) return false;
            }
        return true;
    }
};

// Reference df-pn, exact within a depth bound: entries are keyed by position and remaining depth, so no answer depends on the path.
struct DfpnRef {
    enum { INF = 1000000 };
    struct E { int pn = 1, dn = 1; };
    std::unordered_map<std::string, E> tt; long nodes = 0, limit = 0;
    bool out() const { return nodes > limit; }
    static std::string key(const Pos& q, int d) { std::string s((const char*)q.bd, sizeof q.bd); s.append((const char*)q.hand, sizeof q.hand); s += char(q.turn); s += char(d); return s; }
    // 1 mate within d plies, 0 none, -1 undecided.  attacker: the side to move attacks
    int solve(const Pos& q, bool attacker, int d) { search(q, attacker, d, INF, INF); E e = tt[key(q, d)]; return e.pn == 0 ? 1 : e.dn == 0 ? 0 : -1; }
    void search(const Pos& q, bool att, int d, int tp, int td) {
        if (++nodes > limit) return;
        const std::string k = key(q, d);
        std::vector<Move> v; if (att) { if (d > 0) Solver::checks(q, v); } else v = q.legalMoves();
        if (v.empty()) { E& e = tt[k]; if (att) { e.pn = INF; e.dn = 0; } else { e.pn = 0; e.dn = INF; } return; }
        if (d == 0) { E& e = tt[k]; e.pn = INF; e.dn = 0; return; }
        std::vector<Pos> ch; std::vector<std::string> ck; for (auto& m : v) { ch.push_back(q.after(m)); ck.push_back(key(ch.back(), d - 1)); }
        for (;;) {
            int sum = 0, best = INF + 1, second = INF + 1; size_t bi = 0;
            for (size_t i = 0; i < v.size(); i++) {
                E e = tt[ck[i]]; int a = att ? e.pn : e.dn, b = att ? e.dn : e.pn;
                sum = std::min((int)INF, sum + b);
                if (a < best) { second = best; best = a; bi = i; } else if (a < second) second = a;
            }
            int pn = att ? std::min(best, (int)INF) : sum, dn = att ? sum : std::min(best, (int)INF);
            if (best == 0) { if (att) dn = INF; else pn = INF; }
            { E& e = tt[k]; e.pn = pn; e.dn = dn; }
            if (pn == 0 || dn == 0 || pn >= tp || dn >= td || out()) return;
            E c = tt[ck[bi]];
            if (att) search(ch[bi], false, d - 1, std::min(tp, second + 1), std::min((int)INF, td - dn + c.dn));
            else search(ch[bi], true, d - 1, std::min((int)INF, tp - pn + c.pn), std::min(td, second + 1));
        }
    }
};
// a position with an exposed king: attacker has material near it, often mate in a few
inline Pos mateish(Rng& r, int depthHint) {
    for (;;) {
        Pos q; q.turn = r.below(2); q.ply = 1 + r.below(200);
        const int me = q.turn, op = me ^ 1;
        int kf = r.below(9), kr = r.chance(75) ? r.below(3) : r.below(9); if (op == BLACK) kr = 8 - kr;
        int k = sqOf(kf, kr); q.bd[k] = ref::mk(op, K);
        int mk = r.below(81); if (r.chance(70)) mk = sqOf(r.below(9), me == BLACK ? 6 + r.below(3) : r.below(3));
        if (mk == k) continue; q.bd[mk] = ref::mk(me, K);
        int cnt[7]; for (int i = 0; i < 7; i++) cnt[i] = MAXCNT[i];
        auto put = [&](int c, int near, int spread) {
            int i = r.below(7); if (r.chance(30)) i = 3 + r.below(4); if (!cnt[i]) return;
            int t = HAND_TYPE[i]; int f = fileOf(near) + r.below(2 * spread + 1) - spread, rr = rankOf(near) + r.below(2 * spread + 1) - spread;
            if (!onBoard(f, rr)) return; int s = sqOf(f, rr); if (q.bd[s]) return;
            int ty = t; if (promotable(t) && r.chance(35)) ty += 8;
            if (ty == t && (Pos::deadEnd(c, t, s) || (t == P && q.hasPawnOnFile(c, f)))) return;
            q.bd[s] = ref::mk(c, ty); cnt[i]--;
        };
        int na = 2 + r.below(6), nd = r.below(7), no = r.below(8);
        for (int i = 0; i < na; i++) put(me, k, 3);
        for (int i = 0; i < nd; i++) put(op, k, 2);
        for (int i = 0; i < no; i++) put(r.below(2), sqOf(r.below(9), r.below(9)), 4);
        int nh = r.below(4); for (int i = 0; i < nh; i++) { int j = r.below(7); if (cnt[j]) { q.hand[me][j]++; cnt[j]--; } }
        if (r.chance(60)) for (int i = 0; i < 7; i++) while (cnt[i]) { int c = r.chance(70) ? op : me; if (r.chance(60)) q.hand[c][i]++; cnt[i]--; }
        else { int n2 = r.below(6); for (int i = 0; i < n2; i++) { int j = r.below(7); if (cnt[j]) { q.hand[op][j]++; cnt[j]--; } } }
        (void)depthHint;
        if (q.inCheck(op)) { // remove the pieces giving check
            for (int s = 0; s < 81; s++) if (q.bd[s] && colorOf(q.bd[s]) == me && q.attacks(s, k) && typeOf(q.bd[s]) != K) { q.hand[me][handIdx(demote(typeOf(q.bd[s])))]++; q.bd[s] = 0; s = -1; }
        }
        if (!q.valid()) continue;
        return q;
    }
}
} // namespace ref
