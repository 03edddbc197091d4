// Driver: explore / replay / minimise. Never instrumented.
#include "rt_host.h"
#include <vector>
#include <string>
#include <algorithm>
#include <map>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <ctime>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
using namespace sim;
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u64 hstr(const char* s) { u64 h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (u8)*s) * 0x100000001b3ull; return h; }
static const int MAXSC = 64;
struct Shared {
    Stats st; u64 runs, nontriv, steps, simtime, switches, fair, maxsteps, detcheck, detbad; u64 sc_runs[MAXSC], sc_known[MAXSC]; u64 idx;
    volatile u64 viol_idx; int done; u64 setn;
};
struct Set {   // open addressing
    std::vector<u64> v; size_t n = 0;
    Set() : v(1 << 16, 0) {}
    bool add(u64 x) { if (!x) x = 1; if (n * 2 > v.size()) { std::vector<u64> o(v.size() * 2, 0); o.swap(v); n = 0; for (u64 y : o) if (y) add(y); }
        size_t i = mix64(x) & (v.size() - 1); while (v[i]) { if (v[i] == x) return false; i = (i + 1) & (v.size() - 1); } v[i] = x; ++n; return true; }
};
static std::vector<Scenario*> scens(const char* prop, const char* only) {
    std::vector<Scenario*> r; for (auto* s = scen_head; s; s = s->next) if ((!prop || !strcmp(s->prop, prop)) && (!only || !strcmp(s->name, only))) r.push_back(s);
    std::sort(r.begin(), r.end(), [](Scenario* a, Scenario* b) { int c = strcmp(a->prop, b->prop); return c ? c < 0 : strcmp(a->name, b->name) < 0; }); return r;
}
static std::string esc(const char* s) { std::string o; for (; *s; ++s) { if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if ((u8)*s < 32) o += ' '; else o += *s; } return o; }
static bool write_replay(const char* path, Scenario* sc, u64 seed, u64 idx, const std::vector<u16>& t, bool nf, const RunResult& r, size_t orig, u64 tries) {
    FILE* f = fopen(path, "w"); if (!f) return false;
    fprintf(f, "{\"property\":\"%s\",\"scenario\":\"%s\",\"class\":\"%s\",\"seed\":%llu,\"run\":%llu,\"nofault\":%d,\"hash\":\"%llx\",\"original_tape\":%zu,\"minimise_runs\":%llu,\n\"message\":\"%s\",\n\"tape\":[",
        sc->prop, sc->name, r.cls, (unsigned long long)seed, (unsigned long long)idx, nf, (unsigned long long)r.hash, orig, (unsigned long long)tries, esc(r.msg).c_str());
    for (size_t i = 0; i < t.size(); ++i) fprintf(f, "%s%u", i ? "," : "", t[i]);
    fprintf(f, "]}\n"); fclose(f); return true;
}
static bool run_tape(Scenario* sc, const std::vector<u16>& t, bool nf, Tape* out) {
    static const u16 z = 0; RunSpec s{ sc, 0, t.empty() ? &z : t.data(), (u32)t.size(), nf, 0 }; rt_run(s, out); return R.viol;
}
static void minimise(Scenario* sc, std::vector<u16>& t, bool& nf, const std::string& cls, double tmax, u64& tries) {
    Tape o; double t0 = wall();
    auto ok = [&](const std::vector<u16>& c, bool n) { if (tries > 200000 || wall() - t0 > tmax) return false; ++tries; return run_tape(sc, c, n, &o) && cls == R.cls; };
    if (!nf && ok(t, true)) { nf = true; }
    auto trunc = [&] { std::vector<u16> c = t; while (!c.empty() && c.back() == 0) c.pop_back(); if (c.size() < t.size() && ok(c, nf)) t = c; };
    trunc();
    bool again = true;
    for (int pass = 0; pass < 6 && again; ++pass) {
        again = false;
        for (size_t k = std::max<size_t>(t.size() / 2, 1); k >= 1; k /= 2) {
            for (size_t i = 0; i + k <= t.size();) { auto c = t; c.erase(c.begin() + i, c.begin() + i + k); if (ok(c, nf)) { t = c; again = true; } else i += std::max<size_t>(k / 2, 1); }
            for (size_t i = 0; i + k <= t.size(); i += k) { bool nz = false; for (size_t j = i; j < i + k; ++j) nz |= t[j] != 0; if (!nz) continue; auto c = t; std::fill(c.begin() + i, c.begin() + i + k, 0); if (ok(c, nf)) { t = c; again = true; } }
            if (k == 1) break;
        }
        for (size_t i = 0; i < t.size(); ++i) while (t[i] > 1) { auto c = t; c[i]--; if (ok(c, nf)) { t = c; again = true; } else break; }
        trunc();
        if (wall() - t0 > tmax) break;
    }
}
static std::string slurp(const char* p) { std::string s; FILE* f = fopen(p, "r"); if (!f) return s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
static std::string jget(const std::string& s, const char* k) { std::string q = std::string("\"") + k + "\":"; size_t p = s.find(q); if (p == std::string::npos) return ""; p += q.size(); if (s[p] == '"') { size_t e = p + 1; std::string o; while (e < s.size() && s[e] != '"') { if (s[e] == '\\') ++e; o += s[e++]; } return o; } size_t e = p; while (e < s.size() && s[e] != ',' && s[e] != '}' && s[e] != '\n') ++e; return s.substr(p, e - p); }
struct Known { std::string sc, cls, frag; };

int main(int argc, char** argv) {
    std::string cmd = argc > 1 ? argv[1] : "list"; std::map<std::string, std::string> a; std::vector<std::string> pos;
    for (int i = 2; i < argc; ++i) if (!strncmp(argv[i], "--", 2) && i + 1 < argc) { a[argv[i] + 2] = argv[i + 1]; ++i; } else pos.push_back(argv[i]);
    rt_init();
    if (cmd == "list") { for (auto* s : scens(nullptr, nullptr)) printf("%s %s %u\n", s->prop, s->name, s->weight); return 0; }
    if (cmd == "replay") {
        std::string j = slurp(pos[0].c_str()); std::string prop = jget(j, "property"), name = jget(j, "scenario");
        auto v = scens(prop.c_str(), name.c_str()); if (v.empty()) { printf("{\"error\":\"no such scenario\"}\n"); return 2; }
        std::vector<u16> t; size_t p = j.find("\"tape\":["); if (p != std::string::npos) { p += 8; while (j[p] != ']') { t.push_back((u16)strtoul(&j[p], nullptr, 10)); while (j[p] != ',' && j[p] != ']') ++p; if (j[p] == ',') ++p; } }
        bool nf = jget(j, "nofault") == "1";
        Tape o; rt_watchdog(true);
        if (a.count("trace")) rt_trace(1, [](const char* l) { puts(l); });
        run_tape(v[0], t, nf, &o);
        printf("{\"violation\":%d,\"class\":\"%s\",\"hash\":\"%llx\",\"steps\":%llu,\"message\":\"%s\"}\n", R.viol, R.cls, (unsigned long long)R.hash, (unsigned long long)R.steps, esc(R.msg).c_str());
        return R.viol ? 1 : 0;
    }
    if (cmd == "one") { // one <seed> : trace of a generated run
        auto v = scens(a["prop"].c_str(), a.count("scen") ? a["scen"].c_str() : nullptr); Tape o; if (a.count("trace")) rt_trace(1, [](const char* l) { puts(l); });
        RunSpec s{ v[0], strtoull(a["seed"].c_str(), 0, 0), nullptr, 0, false, 0 }; rt_run(s, &o);
        printf("viol=%d %s %s hash=%llx steps=%llu tape=%u\n", R.viol, R.cls, R.msg, (unsigned long long)R.hash, (unsigned long long)R.steps, o.n); return 0;
    }
    if (cmd == "hashes") { // print the hash of runs [from,to) : determinism proof
        auto v = scens(a.count("prop") ? a["prop"].c_str() : nullptr, a.count("scen") ? a["scen"].c_str() : nullptr); u64 seed = strtoull(a["seed"].c_str(), 0, 0); u64 from = strtoull(a["from"].c_str(), 0, 0), to = strtoull(a["to"].c_str(), 0, 0); Tape o;
        for (auto* s : v) for (u64 i = from; i < to; ++i) { RunSpec sp{ s, mix64(seed * 1000003 + i) ^ hstr(s->name), nullptr, 0, false, 0 }; rt_run(sp, &o); printf("%s %s %llu %llx %s\n", s->prop, s->name, (unsigned long long)i, (unsigned long long)R.hash, R.cls); }
        return 0;
    }
    if (cmd != "run") return 2;
    const char* prop = a["prop"].c_str(); auto v = scens(prop, a.count("scen") ? a["scen"].c_str() : nullptr);
    if (v.empty() || v.size() > MAXSC) { fprintf(stderr, "no scenarios\n"); return 2; }
    u64 seed = strtoull(a["seed"].c_str(), 0, 0); u64 runs = strtoull(a["runs"].c_str(), 0, 0); double tmax = atof(a["time"].c_str()); int W = atoi(a["workers"].c_str()); std::string out = a["out"];
    if (W < 1) W = 1;
    std::vector<Known> known;
    if (a.count("known")) { std::string s = slurp(a["known"].c_str()); size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); std::string l = s.substr(p, e - p); p = e + 1; char A[128], B[64], C[64]; if (sscanf(l.c_str(), "%127s %63s %63s", A, B, C) == 3 && !strcmp(A, prop)) known.push_back({ B, C, "" }); } }
    std::vector<int> cyc; for (size_t i = 0; i < v.size(); ++i) for (u32 k = 0; k < v[i]->weight; ++k) cyc.push_back((int)i);
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int w = 0; w < W; ++w) sh[w].viol_idx = ~0ull;
    double t0 = wall(); std::vector<pid_t> pid(W);
    for (int w = 0; w < W; ++w) {
        pid_t p = fork();
        if (p == 0) {
            rt_stats(&sh[w].st); rt_watchdog(true); Tape t; Tape t2; Set set; Shared& m = sh[w];
            for (u64 i = w; i < runs; i += W) {
                if ((i / W) % 16 == 0) { if (wall() - t0 > tmax) break; u64 best = ~0ull; for (int q = 0; q < W; ++q) best = std::min<u64>(best, (u64)sh[q].viol_idx); if (i > best) break; }
                int si = cyc[i % cyc.size()]; Scenario* s = v[si]; u64 rs = mix64(seed * 1000003 + i) ^ hstr(s->name);
                RunSpec spx{ s, rs, nullptr, 0, false, 0 }; rt_run(spx, &t);
                m.idx = i; m.runs++; m.sc_runs[si]++; m.steps += R.steps; m.simtime += R.simtime; m.switches += R.switches; m.fair += R.fair; if (R.steps > m.maxsteps) m.maxsteps = R.steps;
                if (R.preempt || R.nfault || R.cov) { if (set.add(R.il ^ hstr(s->name))) m.nontriv++; }
                if (R.viol) {
                    bool k = false; for (auto& x : known) if (x.sc == s->name && x.cls == R.cls) k = true;
                    if (k) { if (!m.sc_known[si]++) { std::vector<u16> tp(t.v, t.v + t.n); write_replay((out + ".known." + s->name).c_str(), s, rs, i, tp, t.nofault, R, tp.size(), 0); } continue; }
                    // gate: same tape, same hash
                    RunResult r0 = R; std::vector<u16> tp(t.v, t.v + t.n); bool nf = t.nofault;
                    rt_stats(nullptr); run_tape(s, tp, nf, &t2);
                    bool same = R.viol && !strcmp(R.cls, r0.cls) && R.hash == r0.hash;
                    if (!same) { fprintf(stderr, "sim: run %llu of %s (seed %llx) did not replay: %s/%llx vs %s/%llx : %s\n", (unsigned long long)i, s->name, (unsigned long long)rs, r0.cls, (unsigned long long)r0.hash, R.cls, (unsigned long long)R.hash, r0.msg); m.detbad++; }
                    write_replay((out + ".viol." + std::to_string(w)).c_str(), s, rs, i, tp, nf, r0, tp.size(), 0);
                    m.viol_idx = i; break;
                }
                if ((i / W) % 64 == 5) { // determinism sample: same tape again
                    u64 h = R.hash; std::vector<u16> tp(t.v, t.v + t.n); rt_stats(nullptr); run_tape(s, tp, t.nofault, &t2); rt_stats(&m.st); m.detcheck++; if (R.hash != h) { m.detbad++; fprintf(stderr, "sim: nondeterminism in %s run %llu\n", s->name, (unsigned long long)i); }
                }
            }
            FILE* f = fopen((out + ".set." + std::to_string(w)).c_str(), "wb"); if (f) { for (u64 x : set.v) if (x) fwrite(&x, 8, 1, f); fclose(f); }
            m.done = 1; _exit(0);
        }
        pid[w] = p;
    }
    bool bad = false;
    for (int w = 0; w < W; ++w) { int st; waitpid(pid[w], &st, 0); if (!sh[w].done) { bad = true; fprintf(stderr, "sim: worker %d ended with status %x at run %llu\n", w, st, (unsigned long long)sh[w].idx); } }
    double t1 = wall();
    std::vector<u64> all; for (int w = 0; w < W; ++w) { std::string fn = out + ".set." + std::to_string(w); FILE* f = fopen(fn.c_str(), "rb"); if (f) { u64 x; while (fread(&x, 8, 1, f) == 1) all.push_back(x); fclose(f); unlink(fn.c_str()); } }
    std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
    Shared T{}; u64 best = ~0ull; int bw = -1;
    std::map<std::string, u64> pr, fa; std::vector<u64> scr(v.size()), sck(v.size());
    for (int w = 0; w < W; ++w) { Shared& m = sh[w]; T.runs += m.runs; T.steps += m.steps; T.simtime += m.simtime; T.switches += m.switches; T.fair += m.fair; T.maxsteps = std::max(T.maxsteps, m.maxsteps); T.detcheck += m.detcheck; T.detbad += m.detbad;
        for (int k = 0; k < K_NKINDS; ++k) T.st.fired[k] += m.st.fired[k]; T.st.timejumps += m.st.timejumps;
        for (int k = 0; k < MAXPROBE; ++k) { if (m.st.probe_n[k][0]) pr[m.st.probe_n[k]] += m.st.probe_c[k]; if (m.st.fault_n[k][0]) fa[m.st.fault_n[k]] += m.st.fault_c[k]; }
        for (size_t i = 0; i < v.size(); ++i) { scr[i] += m.sc_runs[i]; sck[i] += m.sc_known[i]; }
        if (m.viol_idx < best) { best = m.viol_idx; bw = w; } }
    u64 tries = 0; std::string vmsg, vcls, vsc;
    if (bw >= 0) {
        std::string fn = out + ".viol." + std::to_string(bw); fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            std::string j = slurp(fn.c_str()); Scenario* s = scens(prop, jget(j, "scenario").c_str())[0]; std::vector<u16> t; size_t q = j.find("\"tape\":[") + 8; while (j[q] != ']') { t.push_back((u16)strtoul(&j[q], nullptr, 10)); while (j[q] != ',' && j[q] != ']') ++q; if (j[q] == ',') ++q; }
            bool nf = jget(j, "nofault") == "1"; std::string cls = jget(j, "class"); size_t orig = t.size(); u64 rs = strtoull(jget(j, "seed").c_str(), 0, 10), ri = strtoull(jget(j, "run").c_str(), 0, 10);
            Tape o; rt_watchdog(true);
            if (cls != "hang") minimise(s, t, nf, cls, a.count("mintime") ? atof(a["mintime"].c_str()) : 20, tries);
            run_tape(s, t, nf, &o);
            if (R.viol && cls == R.cls) write_replay((out + ".replay").c_str(), s, rs, ri, t, nf, R, orig, tries);
            else write_replay((out + ".replay").c_str(), s, rs, ri, t, nf, R, orig, tries);
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (st != 0) { std::string cp = slurp(fn.c_str()); FILE* f = fopen((out + ".replay").c_str(), "w"); fwrite(cp.data(), 1, cp.size(), f); fclose(f); }
    }
    for (int w = 0; w < W; ++w) unlink((out + ".viol." + std::to_string(w)).c_str());
    FILE* f = fopen(out.c_str(), "w"); if (!f) return 2;
    static const char* kn[] = { "schedule", "parameter", "stale atomic load", "spurious weak-CAS failure", "spurious cv wakeup", "notify choice", "time advanced while threads runnable", "clock read jump", "allocation failure", "workload fault", "stall" };
    fprintf(f, "{\"runs\":%llu,\"distinct\":%zu,\"steps\":%llu,\"sim_ns\":%llu,\"switches\":%llu,\"fair\":%llu,\"maxsteps\":%llu,\"detcheck\":%llu,\"detbad\":%llu,\"explore_s\":%.3f,\"wall_s\":%.3f,\"workers\":%d,\"bad_worker\":%d,\"violation\":%d,\n\"faults\":{\"idle clock jump\":%llu",
        (unsigned long long)T.runs, all.size(), (unsigned long long)T.steps, (unsigned long long)T.simtime, (unsigned long long)T.switches, (unsigned long long)T.fair, (unsigned long long)T.maxsteps, (unsigned long long)T.detcheck, (unsigned long long)T.detbad, t1 - t0, wall() - t0, W, bad, bw >= 0, (unsigned long long)T.st.timejumps);
    for (int k : { K_STALE, K_WEAKCAS, K_SPURIOUS, K_TIMEADV, K_CLOCK, K_ALLOC }) fprintf(f, ",\"%s\":%llu", kn[k], (unsigned long long)T.st.fired[k]);
    for (auto& x : fa) fprintf(f, ",\"%s\":%llu", esc(x.first.c_str()).c_str(), (unsigned long long)x.second);
    fprintf(f, "},\n\"probes\":{"); bool first = true; for (auto& x : pr) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(x.first.c_str()).c_str(), (unsigned long long)x.second); first = false; }
    fprintf(f, "},\n\"scenarios\":{"); for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", v[i]->name, (unsigned long long)scr[i]);
    fprintf(f, "},\n\"known\":{"); first = true; for (size_t i = 0; i < v.size(); ++i) if (sck[i]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", v[i]->name, (unsigned long long)sck[i]); first = false; }
    fprintf(f, "}}\n"); fclose(f);
    return bad || T.detbad ? 2 : bw >= 0 ? 1 : 0;
}
