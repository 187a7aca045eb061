// Collects critical positions for the mate searches, with the reference model alone (no code of the repository):
//   A <class> <n> <sfen>   there is a mate in n (and no shorter), and none within n plies if checks of this class did not exist
//   D <class> <n> <sfen>   there is no mate within 5 plies, but one in n if defences of this class did not exist
// g++ -O2 -std=c++17 -I harness tools/mine.cpp -o /tmp/mine && /tmp/mine SEED SECONDS
#include "ref.hpp"
#include "solve.hpp"
#include <map>
#include <set>
#include <ctime>
#include <cstdio>
using namespace ref;
static const char* T[] = {"", "P", "L", "N", "S", "B", "R", "G", "K", "+P", "+L", "+N", "+S", "+B", "+R"};
static std::string tn(int t) { return t < 15 ? T[t] : "?"; }
static bool promZone(int c, int s) { return c == BLACK ? rankOf(s) < 3 : rankOf(s) > 5; }
// how far a move goes into the opponent's camp: the last three ranks, where drops and non-promotions are restricted
static std::string deep(int c, int s) { int k = c == BLACK ? rankOf(s) : 8 - rankOf(s); return ".r" + std::to_string(k + 1); }
static void attackClasses(const Pos& q, const Move& m, std::set<std::string>& o) {
    Pos a = q.after(m); int k = q.king(q.turn ^ 1); int n = 0; bool direct = false;
    for (int s = 0; s < 81; s++) if (a.bd[s] && colorOf(a.bd[s]) == q.turn && a.attacks(s, k)) { n++; if (s == m.to) direct = true; }
    int df = std::abs(fileOf(m.to) - fileOf(k)), dr = std::abs(rankOf(m.to) - rankOf(k)); bool adj = df <= 1 && dr <= 1;
    std::string d = direct ? adj ? "" : ".far" : ".disc";
    if (m.from < 0) o.insert("drop." + tn(m.pt) + d);
    else if (m.promo) o.insert("promo." + tn(m.pt) + d);
    else if (promotable(m.pt) && (promZone(q.turn, m.from) || promZone(q.turn, m.to))) { o.insert("unpromo." + tn(m.pt) + d); if (m.pt != N && m.pt != S) o.insert("unpromo"); }
    else o.insert("move." + tn(m.pt) + d);
    if (promZone(q.turn, m.to) && m.pt != K && (m.from < 0 || promotable(m.pt))) o.insert((m.from < 0 ? "drop." : m.promo ? "promo." : "unpromo.") + tn(m.pt) + deep(q.turn, m.to));
    if (n > 1) o.insert("double"); if (!direct) o.insert("disc"); if (m.cap) o.insert("cap." + tn(m.cap));
}
static void defenceClasses(const Pos& q, const Move& m, std::set<std::string>& o) {
    int k = q.king(q.turn); bool counter = q.after(m).inCheck(q.turn ^ 1);
    std::string kind = m.pt == K && m.from >= 0 ? (m.cap ? "kingcap" : "king") : m.from < 0 ? "drop." + tn(m.pt) : (m.cap ? "cap." : "block.") + tn(m.pt) + (m.promo ? "+" : "");
    int df = std::abs(fileOf(m.to) - fileOf(k)), dr = std::abs(rankOf(m.to) - rankOf(k));
    if (m.from < 0) { bool supported = q.after(m).attacked(m.to, q.turn); kind += (df <= 1 && dr <= 1) ? "" : ".far"; if (!supported) o.insert("drop.loose"); }
    if (m.pt == K && m.from >= 0) kind += "." + std::to_string((fileOf(m.to) - fileOf(k) + 1) * 3 + rankOf(m.to) - rankOf(k) + 1);
    if (promZone(q.turn, m.to) && m.pt != K && (m.from < 0 || promotable(m.pt))) o.insert((m.from < 0 ? "drop." : m.promo ? "promo." : "unpromo.") + tn(m.pt) + deep(q.turn, m.to));
    o.insert(kind); if (counter) o.insert("counter");
    if (m.from >= 0 && m.pt != K && promotable(m.pt) && !m.promo && (promZone(q.turn, m.from) || promZone(q.turn, m.to))) o.insert("unpromo." + tn(m.pt));
}
static void allChecks(const Pos& q, std::vector<Move>& o) { // including the pawn drops that mate
    std::vector<Move> v; q.pseudo(v); const int k = q.king(q.turn ^ 1);
    for (auto& m : v) { Pos a = q.after(m); if (a.attacked(k, q.turn) && !a.inCheck(q.turn)) o.push_back(m); }
}
struct F {
    bool uchi = false; long nodes = 0, limit; std::string noA, noD; std::set<std::string>* used = nullptr; std::set<std::string>* refut = nullptr;
    F(long l) : limit(l) {}
    bool out() const { return nodes > limit; }
    bool orNode(const Pos& q, int n) {
        nodes++; if (out()) return false; std::vector<Move> v; if (uchi) allChecks(q, v); else Solver::checks(q, v);
        for (auto& m : v) {
            if (!noA.empty()) { std::set<std::string> c; attackClasses(q, m, c); if (c.count(noA)) continue; }
            if (andNode(q.after(m), n - 1)) { if (used) attackClasses(q, m, *used); return true; }
            if (out()) return false;
        }
        return false;
    }
    bool andNode(const Pos& q, int n) {
        nodes++; if (out()) return false; std::vector<Move> v; q.pseudo(v);
        for (int pass = 0; pass < 2; pass++) for (auto& m : v) {
            bool first = m.from >= 0 && (m.pt == K || m.cap); if (first != (pass == 0)) continue;
            if (!q.legal(m)) continue;
            if (!noD.empty()) { std::set<std::string> c; defenceClasses(q, m, c); if (c.count(noD)) continue; }
            if (n == 0) { if (refut) defenceClasses(q, m, *refut); return false; }
            if (!orNode(q.after(m), n - 1)) { if (refut && !out()) defenceClasses(q, m, *refut); return false; }
        }
        return true;
    }
};
int main(int, char** a) {
    Rng r(std::stoull(a[1])); time_t end = time(0) + atoi(a[2]); std::map<std::string, int> have; std::vector<Pos> pool; const int Q = a[3] ? atoi(a[3]) : 6; const bool zone = a[3] && a[4] && std::string(a[4]) == "zone", only = a[3] && a[4] && !zone;   // only: pawn-drop mates and declined promotions
    auto emit = [&](char k, const std::string& c, int n, const Pos& q) { std::string key = std::string(1, k) + c + std::to_string(n); if (have[key] >= Q || (only && (c.compare(0, 7, "unpromo") || c.compare(0, 9, "unpromo.N") == 0 || c.compare(0, 9, "unpromo.S") == 0) && c != "pawndropmate")) return; if (zone && c.find(".r") == std::string::npos) return; have[key]++; if (pool.size() < 200) pool.push_back(q); else pool[r.below(200)] = q; printf("%c %s %d %s\n", k, c.c_str(), n, q.sfen().c_str()); fflush(stdout); };
    while (time(0) < end) {
        Pos q;
        if (!pool.empty() && r.chance(75)) { // close to an interesting one
            q = pool[r.below((int)pool.size())];
            for (int k = 1 + r.below(3); k > 0; k--) {
                int x = r.below(81), tries = 0; while (!q.bd[x] && tries++ < 300) x = r.below(81);
                int t = typeOf(q.bd[x]), c = colorOf(q.bd[x]), i = r.below(7), h = r.below(2);
                switch (r.below(5)) {
                case 0: { int f = fileOf(x) + r.below(5) - 2, rr = rankOf(x) + r.below(5) - 2; if (onBoard(f, rr) && !q.bd[sqOf(f, rr)]) { q.bd[sqOf(f, rr)] = q.bd[x]; q.bd[x] = 0; } break; }
                case 1: if (promotable(t)) q.bd[x] = mk(c, t + 8); else if (t > 8) q.bd[x] = mk(c, t - 8); break;
                case 2: if (t && t != K) { q.hand[h][handIdx(demote(t))]++; q.bd[x] = 0; } break;
                case 3: if (q.hand[h][i]) { int y = r.below(81); if (!q.bd[y]) { q.hand[h][i]--; q.bd[y] = mk(r.below(2), HAND_TYPE[i]); } } break;
                default: if (q.hand[h][i]) { q.hand[h][i]--; q.hand[h ^ 1][i]++; }
                }
            }
            if (!q.valid()) continue;
        } else q = mateish(r, 3);
        if (r.chance(zone ? 50 : 10)) { Pos p = q; for (int x = 0; x < 81; x++) q.bd[sqOf(fileOf(x), 8 - rankOf(x))] = p.bd[x]; if (!q.valid()) continue; }   // the king in the attacker's camp
        if (r.chance(15)) { // only pawns (and one other piece) in hand: pawn-drop mates to be avoided, promotions to be declined
            int keep = r.chance(40) ? r.below(7) : 0; for (int i = 1; i < 7; i++) if (i != keep) { q.hand[q.turn ^ 1][i] += q.hand[q.turn][i]; q.hand[q.turn][i] = 0; } if (!q.hand[q.turn][0] && q.hand[q.turn ^ 1][0]) { q.hand[q.turn][0]++; q.hand[q.turn ^ 1][0]--; } if (!q.valid()) continue; }
        int n = 0; bool unknown = false; std::set<std::string> used, refut;
        for (int d : { 1, 3, 5 }) { F f(d == 5 ? 6000 : 3000); f.used = &used; f.refut = &refut; used.clear(); bool w = f.orNode(q, d); if (f.out()) { unknown = true; break; } if (w) { n = d; break; } }
        if (unknown) continue;
        if (!n && q.hand[q.turn][0]) for (int d : { 1, 3, 5 }) { F f(3000); f.uchi = true; bool w = f.orNode(q, d); if (f.out()) break; if (w) { emit('D', "pawndropmate", d, q); if (pool.size() < 200) pool.push_back(q); else pool[r.below(200)] = q; break; } }
        if (n) for (auto& c : used) { if (have["A" + c + std::to_string(n)] >= Q) continue; F f(20000); f.noA = c; if (!f.orNode(q, n) && !f.out()) emit('A', c, n, q); }
        else for (auto& c : refut) for (int d : { 1, 3, 5 }) { if (have["D" + c + std::to_string(d)] >= Q && d == 1) continue; F f(6000); f.noD = c; bool w = f.orNode(q, d); if (f.out()) break; if (w) { emit('D', c, d, q); break; } }
    }
}
