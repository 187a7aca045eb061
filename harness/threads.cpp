// Boards, searchers and parsers used by several threads at once, each thread with objects of its own (or reading one shared board).
// Monitor 1: ThreadSanitizer.  Monitor 2: every task's digest must equal the digest of the same task run alone.
#include "ref.hpp"
#include "common.hpp"
#include <atomic>
#include <climits>
#include <tuple>
#include <algorithm>
#include <memory>
#include <thread>
#include <map>
#include "cshogi.h"
#include "parser.h"
using ref::Pos; using ref::Rng; typedef ref::Move RM;

struct Task { int kind; std::string sfen; std::vector<int> moves; std::string csa; };
static void add(uint64_t& h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); }
static void add(uint64_t& h, const std::string& s) { add(h, std::hash<std::string>()(s)); }
static uint64_t boardWork(__Board& b, const std::vector<int>& moves) {
    uint64_t h = 1;
    std::vector<char> f1(1 << 16), f2(1 << 16);
    for (int m : moves) {
        __LegalMoveList l(b); uint64_t s = 0; for (; !l.end(); l.next()) s += (uint64_t)l.move() * 2654435761u; add(h, s);
        add(h, b.moveIsLegal(m)); add(h, b.moveIsDraw(m, INT_MAX)); add(h, b.bookKeyAfter(b.bookKey(), m));
        b.push(m);
        add(h, b.toSFEN()); add(h, b.getKey()); add(h, b.bookKey()); add(h, b.isDraw(INT_MAX)); add(h, b.is_nyugyoku()); add(h, b.inCheck());
        char code[32]; b.toHuffmanCodedPos(code); add(h, std::string(code, 32)); b.toPackedSfen(code); add(h, std::string(code, 32));
        std::fill(f1.begin(), f1.end(), 0); std::fill(f2.begin(), f2.end(), 0); b._dlshogi_make_input_features(f1.data(), f2.data()); add(h, std::string(f1.begin(), f1.end())); add(h, std::string(f2.begin(), f2.end()));
        add(h, b.mateMoveIn1Ply()); add(h, __move_to_usi(m)); add(h, b.move_from_usi(__move_to_usi(m))); add(h, __dlshogi_make_move_label(m, b.turn() ^ 1));
        add(h, __rotate_sfen(b.toSFEN())); add(h, b.dump());
        add(h, b.toCSAPos()); add(h, __move_to_csa(m)); add(h, __move_rotate(m)); add(h, __move16_from_psv(__move16_to_psv(__move16(m))));
        add(h, b.is_game_over()); add(h, b.isOK()); for (int v : b.pieces()) add(h, v); for (int c = 0; c < 2; c++) for (int v : b.pieces_in_hand(c)) add(h, v); for (int v : b.get_history()) add(h, v);
        { __PseudoLegalMoveList pl(b); uint64_t s2 = 0; for (; !pl.end(); pl.next()) { s2 += (uint64_t)pl.move() * 2654435761u; s2 += b.pseudoLegalMoveIsLegal(pl.move()); } add(h, s2); }
        std::fill(f1.begin(), f1.end(), 0); b.piece_planes(f1.data()); add(h, std::string(f1.begin(), f1.end())); std::fill(f1.begin(), f1.end(), 0); b.piece_planes_rotate(f1.data()); add(h, std::string(f1.begin(), f1.end()));
        __Board c; b.toHuffmanCodedPos(code); c.set_hcp(code); add(h, c.toSFEN()); b.toPackedSfen(code); c.set_psfen(code); add(h, c.toSFEN()); c.set(b.toSFEN()); add(h, c.getKey());
        { auto pc = b.pieces(); int hd[2][7]; for (int k = 0; k < 2; k++) { auto v = b.pieces_in_hand(k); for (int i = 0; i < 7; i++) hd[k][i] = v[i]; } c.set_pieces(pc.data(), hd); add(h, c.toSFEN()); }
        { __LegalMoveList l2(b); if (!l2.end()) { const int n = l2.move(); std::string u = __move_to_usi(n); c.set_position("sfen " + b.toSFEN() + " moves " + u); add(h, c.toSFEN()); c.pop();
          add(h, b.move_from_csa(__move_to_csa(n))); add(h, b.move_from_move16(__move16(n))); add(h, b.move_from_psv(__move16_to_psv(__move16(n)))); } }
        if (!b.inCheck()) { b.push_pass(); add(h, b.toSFEN()); add(h, b.getKey()); b.pop_pass(); }
        try { c.set("9/9/9/9/9/9/9/9/9 x - 1"); add(h, 1); } catch (const std::exception& e) { add(h, e.what()); }
    }
    for (size_t i = 0; i < moves.size(); i++) add(h, b.pop());
    add(h, b.toSFEN());
    return h;
}
static uint64_t work(const Task& t, const __Board& shared) {
    uint64_t h = 7;
    switch (t.kind) {
    case 0: case 1: { __Board b(t.sfen); h = boardWork(b, t.moves); break; }
    case 2: { __Board b(shared); h = boardWork(b, {}); add(h, b.toSFEN()); __LegalMoveList l(b); std::vector<int> one; if (!l.end()) one.push_back(l.move()); add(h, boardWork(b, one)); add(h, shared.toSFEN()); add(h, shared.getKey()); add(h, shared.isDraw(INT_MAX)); break; }
    case 3: { __Board b(t.sfen); add(h, b.mateMove(3)); add(h, b.mateMove(5)); if (b.inCheck()) add(h, b.is_mate(4)); break; }
    case 4: { __Board b(t.sfen); __DfPn d(31, 400, 100000); const bool ok = d.search(b); add(h, ok); add(h, d.get_searched_node()); if (ok) { add(h, d.get_move(b)); d.get_pv(b); } for (auto m : d.pv) add(h, m); add(h, b.toSFEN()); break; }
    case 5: { __Board b(t.sfen); __OslDfPn d(31, 400, 100000); const bool ok = d.search(b); add(h, ok); add(h, d.get_searched_node()); if (ok) { add(h, d.get_move(b)); d.get_pv(b); } for (auto m : d.pv) add(h, m); add(h, b.toSFEN()); break; }
    case 6: { parser::__Parser p; p.parse_csa_str(t.csa); for (int m : p.moves) add(h, m); add(h, p.sfen); add(h, p.endgame); add(h, p.win); for (auto& x : p.names) add(h, x); for (auto& x : p.comments) add(h, x); for (auto x : p.times) add(h, x); break; }
    }
    return h;
}
static const char* CSAT[] = { "", "FU", "KY", "KE", "GI", "KA", "HI", "KI", "OU", "TO", "NY", "NK", "NG", "UM", "RY" };
int main(int argc, char** argv) {
    mon_install();
    mon::Opt o = mon::parse(argc, argv);
    initTable(); Position::initZobrist(); HuffmanCodedPos_init(); PackedSfen_init(); Book_init();
    Rng r(o.seed * 7919ull + o.shard);
    const int T = 6;
    for (long round = 0; round < o.cases; round++) {
        std::vector<Task> tasks;
        for (int i = 0; i < 24; i++) {
            Task t; t.kind = i % 7; Pos q;
            if (t.kind == 0 || t.kind == 6) Pos::parse(ref::START, q); else q = ref::randomSetup(r, r.below(2));
            t.sfen = q.sfen(); int len = t.kind == 6 ? 40 : 4 + r.below(20); std::string csa = "V2.2\nN+a\nN-b\nPI\n+\n";
            if (t.kind <= 1 || t.kind == 6) for (int k = 0; k < len; k++) {
                auto v = q.legalMoves(); if (v.empty()) break; RM m = ref::pick(q, v, r.below(7), r); t.moves.push_back(ref::encode(m));
                auto sq = [](int s) { return s < 0 ? std::string("00") : std::string(1, char('1' + ref::fileOf(s))) + char('1' + ref::rankOf(s)); };
                Pos a = q.after(m); csa += std::string(q.turn ? "-" : "+") + sq(m.from) + sq(m.to) + CSAT[ref::typeOf(a.bd[m.to])] + "\nT" + std::to_string(k) + "\n"; q = a;
            }
            t.csa = csa + "%TORYO\n"; tasks.push_back(t); mon::distinct(t.sfen + std::to_string(t.kind) + std::to_string(round));
        }
        Pos sq = ref::randomSetup(r, 1); __Board shared(sq.sfen());
        mon::crumb("threads round %ld, shared board %s", round, sq.sfen().c_str());
        std::vector<uint64_t> alone; for (auto& t : tasks) alone.push_back(work(t, shared));
        std::atomic<int> go{ 0 }; std::vector<std::thread> th; std::vector<std::vector<int>> bad(T);
        std::vector<std::vector<int>> order(T); for (int k = 0; k < T; k++) { for (int i = 0; i < (int)tasks.size(); i++) order[k].push_back(i); for (int i = (int)tasks.size() - 1; i > 0; i--) std::swap(order[k][i], order[k][r.below(i + 1)]); }
        for (int k = 0; k < T; k++) th.emplace_back([&, k] {
            go++; while (go < T) std::this_thread::yield();
            for (int i : order[k]) if (work(tasks[i], shared) != alone[i]) bad[k].push_back(i);
        });
        for (auto& t : th) t.join();
        for (int k = 0; k < T; k++) for (int i : bad[k]) mon::violation("differs-from-alone", "kind " + std::to_string(tasks[i].kind) + " " + tasks[i].sfen);
        for (auto& t : tasks) { mon::count("task.kind" + std::to_string(t.kind), T); for (int k = 0; k < T; k++) mon::eval(); }
        mon::count("rounds"); if (round < 2) mon::sample(std::to_string(T) + " threads x 24 tasks, first: " + tasks[0].sfen + " + " + std::to_string(tasks[0].moves.size()) + " moves; shared " + sq.sfen());
    }
    mon::finish();
    return 0;
}
