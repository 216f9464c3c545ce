// Common runtime-monitor harness: seeded case generator, trace log that
// survives a crash, violation reporting, observation counters.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <iostream>
#include <iomanip>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>

namespace mon {

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t u(uint64_t n) { return n ? next() % n : 0; }           // [0,n)
    int range(int a, int b) { return a + (int)u((uint64_t)(b - a + 1)); } // [a,b]
    double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * real(); }
    bool chance(double p) { return real() < p; }
    double gauss() { double a = real(), b = real(); if (a < 1e-300) a = 1e-300;
        return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b); }
    template <class V> auto pick(const V& v) -> decltype(v[0]) { return v[u(v.size())]; }
    template <class T> T one(std::initializer_list<T> l) { return *(l.begin() + u(l.size())); }
};

struct Stop {};   // thrown to end a case after a violation

struct Shared {   // lives in a mmap'ed file: survives an abort
    char section[128];
    uint64_t idx;
    uint64_t done;
    uint64_t loglen;
    char log[1 << 20];
};

struct State {
    Shared* sh = nullptr;
    std::string outdir;
    uint64_t seed = 1;
    bool thorough = false;
    bool replay = false;
    FILE* viol = nullptr;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t evaluations = 0;
    uint64_t checks = 0;
    double scale = 1.0;
    std::map<std::string, int> violKeys;
};
inline State& st() { static State s; return s; }

inline void log(const std::string& line) {
    Shared* s = st().sh;
    if (!s) return;
    size_t n = line.size();
    if (s->loglen + n + 2 >= sizeof(s->log)) return;
    memcpy(s->log + s->loglen, line.data(), n);
    s->loglen += n;
    s->log[s->loglen++] = '\n';
    s->log[s->loglen] = 0;
}
inline std::string currentLog() { return st().sh ? std::string(st().sh->log, st().sh->loglen) : ""; }
#define LOGOP(expr) do { std::ostringstream _o; _o << std::setprecision(17) << expr; mon::log(_o.str()); } while (0)

inline std::string jsonEsc(const std::string& s) {
    std::string r; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

inline void reportViolation(const std::string& key, const std::string& msg) {
    State& s = st();
    if (s.violKeys[key]++ < 3 && s.viol) {
        fprintf(s.viol, "{\"key\":\"%s\",\"section\":\"%s\",\"case\":%llu,\"msg\":\"%s\",\"log\":\"%s\"}\n",
                jsonEsc(key).c_str(), jsonEsc(s.sh->section).c_str(), (unsigned long long)s.sh->idx,
                jsonEsc(msg).c_str(), jsonEsc(currentLog()).c_str());
        fflush(s.viol);
    }
}
[[noreturn]] inline void violate(const std::string& key, const std::string& msg) {
    reportViolation(key, msg);
    throw Stop();
}
// oracle: cond must hold
#define REQUIRE(cond, key, msg) do { mon::st().checks++; if (!(cond)) { std::ostringstream _m; \
    _m << std::setprecision(17) << msg << "   [" #cond "]"; mon::violate(key, _m.str()); } } while (0)

// What a case leaves behind (leak mode, VERIF_LEAK=1): every block allocated during a case and not freed at its
// end is taken down with the stack that allocated it.  One-time initialisations and caches show up once; the same
// stack in many cases is memory that use of the library costs for good.  Likewise for open files.
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif
#ifdef MON_ASAN
extern "C" {
size_t __sanitizer_get_current_allocated_bytes();
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
size_t __asan_get_alloc_stack(void*, void**, size_t, int*);
void __sanitizer_symbolize_pc(void*, const char*, char*, size_t);
}
inline long heapBytes() { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
inline long heapBytes() { return 0; }
#endif
struct Leak {
    static const size_t N = 1 << 22;
    struct Slot { uintptr_t p; uint32_t epoch; uint32_t size; };
    Slot* t = nullptr; uint32_t epoch = 0; bool on = false, enabled = false, full = false; int fds = 0;
    struct Rec { uint64_t blocks = 0, bytes = 0, lastIdx = 0; std::string section, log; void* pcs[32]; size_t n = 0; };
    std::map<uint64_t, Rec> recs; std::map<std::string, std::pair<uint64_t, uint64_t>> fdrecs;
    std::vector<size_t> touched; bool inHook = false;
    std::unordered_map<uintptr_t, std::pair<uint64_t, uint32_t>> left;   // blocks that outlived their case: stack, case number
};
inline Leak& leak() { static Leak* l = new Leak; return *l; }
struct LeakPause { bool was; LeakPause() : was(leak().on) { leak().on = false; } ~LeakPause() { leak().on = was; } };
#ifdef MON_ASAN
inline size_t leakSlot(uintptr_t p) { return (size_t)((p >> 4) * 0x9e3779b97f4a7c15ull >> 42); }
inline void leakMalloc(const volatile void* q, size_t n) {
    Leak& l = leak(); if (!l.on || !q) return; uintptr_t p = (uintptr_t)q;
    size_t h = leakSlot(p);
    for (size_t i = 0; i < 4096; i++, h = (h + 1) & (Leak::N - 1)) { Leak::Slot& s = l.t[h]; if (s.epoch != l.epoch || s.p == p || s.p == 1) { if (s.epoch != l.epoch) { l.on = false; l.touched.push_back(h); l.on = true; } s.p = p; s.epoch = l.epoch; s.size = (uint32_t)n; return; } }
    l.full = true;
}
inline void leakFree(const volatile void* q) {
    Leak& l = leak(); if (!l.enabled || !q || !l.t || l.inHook) return; uintptr_t p = (uintptr_t)q; size_t h = leakSlot(p);
    if (!l.left.empty() && l.left.count(p)) { bool was = l.on; l.on = false; l.inHook = true; l.left.erase(p); l.inHook = false; l.on = was; }
    for (size_t i = 0; i < 4096; i++, h = (h + 1) & (Leak::N - 1)) { Leak::Slot& s = l.t[h]; if (s.epoch != l.epoch) return; if (s.p == p) { s.p = 1; return; } }
}
#endif
inline int countFds() { int n = 0; for (int f = 0; f < 256; f++) if (fcntl(f, F_GETFD) >= 0) n++; return n; }
inline void leakBegin() {
#ifdef MON_ASAN
    Leak& l = leak(); if (!l.enabled) return; l.epoch++; l.touched.clear(); l.full = false; l.fds = countFds(); l.on = true;
#endif
}
inline void leakEnd(const std::string& section, uint64_t idx) {
#ifdef MON_ASAN
    Leak& l = leak(); if (!l.enabled) return; l.on = false;
    int fds = countFds(); if (fds > l.fds) { auto& r = l.fdrecs[section]; r.first++; r.second = idx; }
    st().counters["leak.cases"]++; st().counters["leak.blocks"] += l.touched.size();
    for (size_t h : l.touched) { Leak::Slot& s = l.t[h]; if (s.epoch != l.epoch || s.p == 1) continue;
        void* pcs[32]; int thr; size_t n = __asan_get_alloc_stack((void*)s.p, pcs, 32, &thr); uint64_t k = hashStr(section);
        for (size_t i = 0; i < n; i++) k = mix(k ^ (uintptr_t)pcs[i]);
        Leak::Rec& r = l.recs[k]; l.left[s.p] = std::make_pair(k, s.size); r.lastIdx = idx; r.section = section;
        if (!r.n) { memcpy(r.pcs, pcs, sizeof pcs); r.n = n; r.log = std::string(st().sh->log, st().sh->loglen).substr(0, 4000); } }
#endif
}
inline void seen(const std::string& name, uint64_t n = 1) { LeakPause p; st().counters[name] += n; }
inline void distinct(uint64_t h) { LeakPause p; st().distinct.insert(h); }
inline void sample(const std::string& s) { if (st().samples.size() < 3) { LeakPause p; st().samples.push_back(s.substr(0, 1500)); } }
inline void leakReport() {
#ifdef MON_ASAN
    Leak& l = leak(); if (!l.enabled) return;
    for (auto& kv : l.left) { Leak::Rec& r = l.recs[kv.second.first]; r.blocks++; r.bytes += kv.second.second; }
    for (auto& kv : l.recs) { Leak::Rec& r = kv.second; std::string trace, where; char buf[8192];
        for (size_t i = 0; i < r.n; i++) { memset(buf, 0, sizeof buf); __sanitizer_symbolize_pc((char*)r.pcs[i] - 1, "%f|%s:%l", buf, sizeof buf - 2);
            for (char* b = buf; *b; b += strlen(b) + 1) { std::string f = b; trace += f + "\n";
                std::string path = f.substr(f.find('|') + 1); const char* root = getenv("VERIF_REPO_ROOT");
                if (where.empty() && root && (path.find(root) == 0 || path.find("/inc-") != std::string::npos)) { std::string fn = f.substr(0, f.find('|')); where = fn.substr(0, fn.find_first_of("(<")) + "@" + path.substr(path.rfind('/') + 1, path.rfind(':') - path.rfind('/') - 1); } } }
        FILE* f = fopen((st().outdir + "/leaks.txt").c_str(), "a"); if (f) { fprintf(f, "%llu blocks %llu bytes section %s case %llu where=%s\n%s\n", (unsigned long long)r.blocks, (unsigned long long)r.bytes, r.section.c_str(), (unsigned long long)r.lastIdx, where.c_str(), trace.c_str()); fclose(f); }
        if (where.empty() || r.blocks < 3) continue;
        strncpy(st().sh->section, r.section.c_str(), sizeof(st().sh->section) - 1); st().sh->idx = r.lastIdx; st().sh->loglen = 0; log(r.log);
        reportViolation("leak:" + where, std::to_string(r.bytes) + " bytes in " + std::to_string(r.blocks) + " blocks left behind, allocated at\n" + trace); }
    for (auto& kv : l.fdrecs) if (kv.second.first >= 3) { strncpy(st().sh->section, kv.first.c_str(), sizeof(st().sh->section) - 1); st().sh->idx = kv.second.second;
        reportViolation("files:" + kv.first, std::to_string(kv.second.first) + " cases left files open"); }
#endif
}

struct Ctx { Rng rng; uint64_t idx; bool thorough; };
typedef std::function<void(Ctx&)> Fn;
struct Section { std::string name; uint64_t quick, thorough; double cpu; Fn fn; };
inline std::vector<Section>& sections() { static std::vector<Section> v; return v; }
struct Reg { Reg(const char* n, uint64_t q, uint64_t t, double cpu, Fn f) { sections().push_back(Section{n, q, t, cpu, f}); } };

// SECTION(name, quick cases, thorough cases): body uses `c` (Ctx&)
#define SECTION(name, q, t) \
    static void sec_##name(mon::Ctx& c); \
    static mon::Reg reg_##name(#name, q, t, 20.0, sec_##name); \
    static void sec_##name(mon::Ctx& c)
#define SECTION_CPU(name, q, t, cpu) \
    static void sec_##name(mon::Ctx& c); \
    static mon::Reg reg_##name(#name, q, t, cpu, sec_##name); \
    static void sec_##name(mon::Ctx& c)

inline void onProf(int) { const char m[] = "\nMONITOR-HANG\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(77); }
inline void arm(double sec) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (time_t)sec; it.it_value.tv_usec = (suseconds_t)((sec - (time_t)sec) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

// true if f throws std::exception
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

inline bool close(double a, double b, double atol, double rtol = 0) {
    if (std::isnan(a) || std::isnan(b)) return false;
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

inline int runMain(int argc, char** argv) {
    State& s = st();
    std::string only; long long onlyCase = -1; uint64_t shard = 0, nshards = 1; double hangMul = 1;
    std::string resumeSec; uint64_t resumeIdx = 0; bool resume = false; uint64_t maxCases = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") s.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--tier") s.thorough = nx() == "thorough";
        else if (a == "--out") s.outdir = nx();
        else if (a == "--section") only = nx();
        else if (a == "--case") onlyCase = atoll(nx().c_str());
        else if (a == "--shard") shard = atoll(nx().c_str());
        else if (a == "--nshards") nshards = atoll(nx().c_str());
        else if (a == "--hangmul") hangMul = atof(nx().c_str());
        else if (a == "--max") maxCases = strtoull(nx().c_str(), 0, 10);
        else if (a == "--resume") { resume = true; resumeSec = nx(); resumeIdx = strtoull(nx().c_str(), 0, 10); }
    }
    if (s.outdir.empty()) s.outdir = ".";
    std::string pre = s.outdir + "/s" + std::to_string(shard);
    { int fd = open((pre + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("cur"); return 3; }
      s.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); ::close(fd); }
    s.viol = fopen((pre + ".viol").c_str(), resume ? "a" : "w");
    signal(SIGPROF, onProf);
#ifdef MON_ASAN
    if (getenv("VERIF_LEAK")) { Leak& l = leak(); l.t = (Leak::Slot*)mmap(0, Leak::N * sizeof(Leak::Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        l.touched.reserve(1 << 22); l.enabled = true; __sanitizer_install_malloc_and_free_hooks(leakMalloc, leakFree); }
#endif
    uint64_t mult = getenv("VERIF_MULT") ? std::max(1, atoi(getenv("VERIF_MULT"))) : 1;
    bool started = !resume;
    for (Section& sec : sections()) {
        if (!only.empty() && sec.name != only) continue;
        uint64_t n = s.thorough ? sec.thorough : sec.quick * mult;
        if (s.thorough && n < sec.quick * mult) n = sec.quick * mult;
        if (maxCases && n > maxCases) n = maxCases;
        uint64_t first = 0;
        if (!started) { if (sec.name != resumeSec) continue; started = true; first = resumeIdx + 1; }
        for (uint64_t i = first; i < n; i++) {
            if (onlyCase >= 0 ? (uint64_t)onlyCase != i : (i % nshards) != shard) continue;
            s.sh->loglen = 0; s.sh->log[0] = 0; s.sh->idx = i;
            strncpy(s.sh->section, sec.name.c_str(), sizeof(s.sh->section) - 1);
            Ctx c{Rng(mix(s.seed * 1000003ull + 17) ^ hashStr(sec.name) ^ mix(i)), i, s.thorough};
            arm(sec.cpu * hangMul);
            leakBegin();
            for (int again = onlyCase >= 0 && leak().enabled ? 4 : 0; again > 0; again--) { Ctx k = c; s.sh->loglen = 0; try { sec.fn(k); } catch (...) {} }
            try { sec.fn(c); }
            catch (const Stop&) {}
            catch (const std::exception& e) { reportViolation("exception:" + sec.name, std::string("unexpected exception: ") + e.what()); }
            catch (...) { reportViolation("exception:" + sec.name, "unexpected non-standard exception"); }
            leakEnd(sec.name, i);
            arm(0);
            s.evaluations++; s.counters["cases." + sec.name]++;
            s.sh->done++;
        }
    }
    leakReport();
    FILE* f = fopen((pre + ".json").c_str(), "w");
    fprintf(f, "{\"evaluations\":%llu,\"checks\":%llu,\"counters\":{", (unsigned long long)s.evaluations, (unsigned long long)s.checks);
    bool firstc = true;
    for (auto& kv : s.counters) { fprintf(f, "%s\"%s\":%llu", firstc ? "" : ",", jsonEsc(kv.first).c_str(), (unsigned long long)kv.second); firstc = false; }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < s.samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEsc(s.samples[i]).c_str());
    fprintf(f, "],\"distinct\":[");
    firstc = true;
    for (uint64_t h : s.distinct) { fprintf(f, "%s%llu", firstc ? "" : ",", (unsigned long long)h); firstc = false; }
    fprintf(f, "]}\n"); fclose(f);
    if (s.viol) fclose(s.viol);
    return 0;
}
} // namespace mon

#ifndef MON_NO_MAIN
int main(int argc, char** argv) { int r = mon::runMain(argc, argv); fflush(stdout); _exit(r); }
#endif
#endif
