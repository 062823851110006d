// Exploration core shared by all harnesses: deterministic case numbering, sharding, progress (for crash attribution),
// counters, distinct-state hashing and the result file the driver (bin/check) reads.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>
#include <functional>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

struct Core {
    std::string mode, tier = "quick", out, progress, desc;
    uint64_t shard = 0, shards = 1, only = UINT64_MAX, next = 0, cur = 0;
    bool failed = false, listing = false;
    std::map<std::string, uint64_t> counters;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> states, outcomes;
    std::string failure;
    volatile uint64_t *slot = nullptr;
    uint64_t dummy = 0;
    bool thorough() const { return tier == "thorough"; }
    static Core &i() { static Core c; return c; }
    void init(int argc, char **argv)
    {
        for (int k = 1; k < argc; k++) {
            std::string a = argv[k];
            auto v = [&] { return std::string(argv[++k]); };
            if (a == "--mode") mode = v();
            else if (a == "--tier") tier = v();
            else if (a == "--out") out = v();
            else if (a == "--progress") progress = v();
            else if (a == "--shard") shard = strtoull(argv[++k], nullptr, 10);
            else if (a == "--shards") shards = strtoull(argv[++k], nullptr, 10);
            else if (a == "--only") only = strtoull(argv[++k], nullptr, 10);
            else { fprintf(stderr, "unknown argument %s\n", a.c_str()); _exit(3); }
        }
        slot = &dummy;
        if (!progress.empty()) {
            int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd < 0 || ftruncate(fd, 16)) _exit(3);
            slot = static_cast<volatile uint64_t *>(mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
            slot[0] = UINT64_MAX;
        }
    }
    // true when this process has to run the next case
    bool want()
    {
        if (failed) return false;
        uint64_t n = next++;
        if (only != UINT64_MAX ? n != only : n % shards != shard) return false;
        cur = n;
        slot[0] = n;
        counters["evaluations"]++;
        return true;
    }
    // ---- exploration of choice trees: fn runs one history and calls choose(n) at every branching point ---------------------
    // A history is named by its choices as a number in mixed radix (the alternatives at each point); shards divide the tree at depth `split`.
    struct Step { int chosen, n; };
    std::vector<Step> path;
    std::vector<int> plan;
    uint64_t rest = 0; // choices still to be taken from the name of the history
    int pathBits = 5;
    int choose(int n)
    {
        if (n <= 0) { fprintf(stderr, "choose(0)\n"); _exit(3); }
        size_t k = path.size();
        if (single()) { plan.resize(k); plan.push_back(int(rest % uint64_t(n))); rest /= uint64_t(n); }
        int c = k < plan.size() ? plan[k] : 0;
        if (c >= n) { fprintf(stderr, "choice %d of %d at depth %zu: not deterministic or case out of range\n", c, n, k); _exit(3); }
        if (n > (1 << pathBits)) { fprintf(stderr, "too many alternatives\n"); _exit(3); }
        path.push_back({c, n});
        count("transitions");
        return c;
    }
    void paths(int bits, size_t split, const std::function<void()> &fn)
    {
        pathBits = bits;
        plan.clear();
        if (only != UINT64_MAX) {
            rest = only;
            path.clear(); cur = only; slot[0] = only; next = UINT64_MAX; count("evaluations");
            fn();
            return;
        }
        uint64_t subtree = 0;
        std::vector<int> last;
        bool have = false;
        while (!failed) {
            uint64_t id = 0;
            double size = 1;
            for (size_t k = plan.size(); k-- > 0;) { id = id * uint64_t(path[k].n) + uint64_t(plan[k]); size *= path[k].n; }
            if (size > 9e18) { fprintf(stderr, "path too long\n"); _exit(3); }
            path.clear();
            cur = id; slot[0] = id; slot[1] = slot[1] + 1;
            // the first `split` choices are only known after running: a history outside the shard is run once and not counted
            auto before = counters;
            fn();
            std::vector<int> pre;
            for (size_t k = 0; k < path.size() && k < split; k++) pre.push_back(path[k].chosen);
            if (!have || pre != last) { if (have) subtree++; last = pre; have = true; }
            bool mine = subtree % shards == shard;
            if (mine) { count("evaluations"); next++; } else { counters = before; if (!failed && path.size() > split) path.resize(split); }
            while (!path.empty() && path.back().chosen + 1 >= path.back().n) path.pop_back();
            if (path.empty()) break;
            plan.clear();
            for (auto &p : path) plan.push_back(p.chosen);
            plan.back()++;
        }
    }
    // reserves n case numbers and returns the first of those of this shard via callback
    bool single() const { return only != UINT64_MAX; }
    void count(const char *k, uint64_t n = 1) { counters[k] += n; }
    static uint64_t hash(const std::string &s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
        return h;
    }
    void state(const std::string &s) { states.insert(hash(s)); }
    void outcome(const std::string &s) { outcomes.insert(hash(s)); }
    void sample(const std::string &s, size_t max = 6) { if (samples.size() < max) samples.push_back(s); }
    void fail(const std::string &what)
    {
        if (failed) return;
        failed = true;
        failure = what;
    }
    static std::string esc(const std::string &s)
    {
        std::string r;
        char b[8];
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
            else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += char(c);
        }
        return r;
    }
    static std::string hex(const std::string &s)
    {
        std::string r; char b[4];
        for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
        return r;
    }
    int finish()
    {
        if (only != UINT64_MAX && only >= next && !failed) { fprintf(stderr, "case out of range\n"); return 3; }
        FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
        fprintf(f, "{\"mode\":\"%s\",\"cases\":%llu,\"failed\":%s,\"case\":%llu,\"failure\":\"%s\",\"desc\":\"%s\",\"counters\":{", mode.c_str(), (unsigned long long)next,
                failed ? "true" : "false", (unsigned long long)cur, esc(failure).c_str(), esc(desc).c_str());
        bool first = true;
        for (auto &c : counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false; }
        fprintf(f, "},\"samples\":[");
        first = true;
        for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
        fprintf(f, "]}\n");
        if (f != stdout) fclose(f);
        if (!out.empty()) {
            dump(out + ".states", states);
            dump(out + ".outcomes", outcomes);
        }
        return failed ? 1 : 0;
    }
    static void dump(const std::string &p, const std::unordered_set<uint64_t> &s)
    {
        FILE *f = fopen(p.c_str(), "wb");
        for (uint64_t h : s) fwrite(&h, 8, 1, f);
        fclose(f);
    }
};
#define CORE (Core::i())
