// C ABI over the reference model, for the Python-level monitors (ctypes).
#include "ref.hpp"
#include "solve.hpp"
using namespace ref;
extern "C" {
struct H { Pos q; Rng r; std::vector<Pos> st; H(uint64_t s) : r(s) {} };
void* ref_new(uint64_t seed) { return new H(seed); }
void ref_free(void* h) { delete (H*)h; }
static int put(const std::string& s, char* out, int n) { if ((int)s.size() + 1 > n) return -1; memcpy(out, s.c_str(), s.size() + 1); return (int)s.size(); }
int ref_set(void* h, const char* sfen) { Pos q; if (!Pos::parse(sfen, q)) return 0; ((H*)h)->q = q; ((H*)h)->st.clear(); return 1; }
void ref_start(void* h) { Pos::parse(START, ((H*)h)->q); ((H*)h)->st.clear(); }
void ref_random(void* h, int all) { H* x = (H*)h; x->q = randomSetup(x->r, all); x->st.clear(); }
void ref_special(void* h, int i) { Pos::parse(SPECIAL[i % NSPECIAL], ((H*)h)->q); ((H*)h)->st.clear(); }
int ref_nspecial() { return NSPECIAL; }
int ref_sfen(void* h, char* out, int n) { return put(((H*)h)->q.sfen(), out, n); }
int ref_rotated(void* h, char* out, int n) { return put(((H*)h)->q.rotated().sfen(), out, n); }
static Move dec(const Pos& q, int e) { Move m; m.to = e & 127; int f = (e >> 7) & 127; if (f > 80) { m.pt = f - 80; } else { m.from = f; m.promo = (e >> 14) & 1; m.pt = (e >> 16) & 15; m.cap = (e >> 20) & 15; } return m; }
int ref_legal(void* h, int* out) { auto v = ((H*)h)->q.legalMoves(); int n = 0; for (auto& m : v) out[n++] = encode(m); return n; }
int ref_usi(void* h, int e, char* out, int n) { return put(usi(dec(((H*)h)->q, e)), out, n); }
int ref_apply(void* h, int e) { H* x = (H*)h; x->st.push_back(x->q); x->q.apply(dec(x->q, e)); return 0; }
void ref_pass(void* h) { H* x = (H*)h; x->st.push_back(x->q); x->q.turn ^= 1; }
int ref_undo(void* h) { H* x = (H*)h; if (x->st.empty()) return 0; x->q = x->st.back(); x->st.pop_back(); return 1; }
int ref_pick(void* h, int policy) { H* x = (H*)h; auto v = x->q.legalMoves(); if (v.empty()) return 0; return encode(pick(x->q, v, policy, x->r)); }
int ref_incheck(void* h) { return ((H*)h)->q.inCheck(); }
int ref_ismate(void* h) { return ((H*)h)->q.isMate(); }
int ref_declare(void* h) { return ((H*)h)->q.declareWin(); }
int ref_valid(void* h) { return ((H*)h)->q.valid(); }
int ref_turn(void* h) { return ((H*)h)->q.turn; }
void ref_board(void* h, int* bd, int* hand) { H* x = (H*)h; for (int i = 0; i < 81; i++) bd[i] = x->q.bd[i]; for (int c = 0; c < 2; c++) for (int i = 0; i < 7; i++) hand[c * 7 + i] = x->q.hand[c][i]; }
int ref_attacks(void* h, int s, int t) { return ((H*)h)->q.attacks(s, t); }
// 1 yes, 0 no, -1 gave up
int ref_mate_or(void* h, int n, long limit) { Solver s; s.limit = limit; bool r = s.orNode(((H*)h)->q, n); return s.out() ? -1 : r; }
int ref_mate_and(void* h, int n, long limit) { Solver s; s.limit = limit; bool r = s.andNode(((H*)h)->q, n); return s.out() ? -1 : r; }
void ref_mateish(void* h) { H* x = (H*)h; x->q = mateish(x->r, 5); x->st.clear(); }
// 1 mate within d plies, 0 none, -1 gave up
int ref_dfpn(void* h, int attacker, int d, long limit) { DfpnRef x; x.limit = limit; return x.solve(((H*)h)->q, attacker, d); }
}
