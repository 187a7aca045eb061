// Shared plumbing of the C++ monitors: options, event counters, violation reports, crash breadcrumbs.
// Output protocol (stdout, one JSON object per line):
//   {"t":"viol","key":K,"detail":D}   an observation that refutes the property
//   {"t":"stats","counts":{..},"evaluations":N,"distinct":N,"samples":[..]}
#pragma once
#include <cstdio>
#include <cstdarg>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <csignal>
#include <unistd.h>
#include <cstring>
#include <cstdlib>
#include <cstdint>

namespace mon {
struct Opt {
    uint64_t seed = 1; int shard = 0; int shards = 1; long cases = 100; std::string mode; std::string arg;
};
inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
inline char g_crumb[4096];
inline void crumb(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(g_crumb, sizeof g_crumb, fmt, ap); va_end(ap);
}
inline void dumpCrumb() {
    static const char h[] = "\nCRUMB: ";
    (void)!write(2, h, sizeof h - 1); (void)!write(2, g_crumb, strlen(g_crumb)); (void)!write(2, "\n", 1);
}
inline std::mutex g_mu;
inline std::map<std::string, long> g_counts;
inline long g_eval = 0;
inline long g_viol = 0;
inline std::unordered_set<uint64_t> g_distinct;
inline std::vector<std::string> g_samples;
inline void count(const std::string& k, long n = 1) { g_counts[k] += n; }
inline void maxi(const std::string& k, long n) { auto& v = g_counts["max:" + k]; if (n > v) v = n; }
inline void eval() { g_eval++; }
inline void distinct(const std::string& s) { g_distinct.insert(std::hash<std::string>()(s)); }
inline void sample(const std::string& s) { if (g_samples.size() < 4) g_samples.push_back(s); }
inline std::map<std::string, int> g_perKey;
inline void violation(const std::string& key, const std::string& detail) {
    std::lock_guard<std::mutex> l(g_mu);
    g_viol++;
    if (g_perKey[key]++ < 3) {
        printf("{\"t\":\"viol\",\"key\":\"%s\",\"detail\":\"%s\"}\n", jesc(key).c_str(), jesc(detail).c_str());
        fflush(stdout);
    }
}
inline void finish() {
    std::string c;
    for (auto& kv : g_counts) { if (!c.empty()) c += ","; c += "\"" + jesc(kv.first) + "\":" + std::to_string(kv.second); }
    std::string s;
    for (auto& x : g_samples) { if (!s.empty()) s += ","; s += "\"" + jesc(x) + "\""; }
    printf("{\"t\":\"stats\",\"evaluations\":%ld,\"distinct\":%zu,\"counts\":{%s},\"samples\":[%s]}\n",
        g_eval, g_distinct.size(), c.c_str(), s.c_str());
    fflush(stdout);
}
inline Opt parse(int argc, char** argv) {
    Opt o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--shard") o.shard = atoi(val().c_str());
        else if (a == "--shards") o.shards = atoi(val().c_str());
        else if (a == "--cases") o.cases = atol(val().c_str());
        else if (a == "--arg") o.arg = val();
        else o.mode = a;
    }
    return o;
}
} // namespace mon

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define MON_SAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define MON_SAN 1
#endif
#endif
#ifdef MON_SAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline void mon_install() { __sanitizer_set_death_callback(mon::dumpCrumb); }
#else
inline void mon_handler(int s) { mon::dumpCrumb(); signal(s, SIG_DFL); raise(s); }
inline void mon_install() { for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS }) signal(s, mon_handler); }
#endif
