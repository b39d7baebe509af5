// Common reporting layer of the bounded-exhaustive explorers.
#ifndef VH_H
#define VH_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <exception>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vh {

struct Viol { std::string key, detail; };

class Run {
public:
    std::string tier = "quick", out, only;
    int shard = 0, nshards = 1;
    uint64_t seed = 1;
    uint64_t states = 0, transitions = 0, traces = 0;
    uint64_t counter = 0;
    std::map<std::string, uint64_t> dims;
    std::vector<std::string> samples;
    std::vector<Viol> viols;
    std::map<std::string, int> keycount;
    uint64_t viol_total = 0;
    char* cur = nullptr;
    uint64_t nat = 0, next_at = 1;

    bool thorough() const { return tier == "thorough"; }

    Run(int argc, char** argv) {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(argv[++i]); };
            if (a == "--tier") tier = val();
            else if (a == "--out") out = val();
            else if (a == "--shard") shard = std::stoi(val());
            else if (a == "--nshards") nshards = std::stoi(val());
            else if (a == "--seed") seed = std::stoull(val());
            else if (a == "--only") only = val();
        }
        if (!out.empty()) {
            int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ftruncate(fd, 4096) == 0) {
                void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) cur = (char*) p;
                close(fd);
            }
        }
    }

    // Is the next case of the enumeration ours? (static round-robin sharding)
    bool mine() { return int(counter++ % nshards) == shard; }

    // Record what is being executed, so that a crash can be attributed.
    void at(const std::string& what) {
        if (cur) { strncpy(cur, what.c_str(), 4000); }
        if (++nat == next_at) { next_at = next_at * 37 + 5; sample(what); }
    }
    void state(uint64_t n = 1) { states += n; transitions += n; }
    void step(uint64_t n = 1) { transitions += n; }
    void dim(const std::string& k, uint64_t n = 1) { dims[k] += n; }
    void sample(const std::string& s) {
        if (samples.size() < 4) samples.push_back(s.substr(0, 600));
    }
    void viol(const std::string& key, const std::string& detail) {
        ++viol_total;
        if (keycount[key]++ < 3 && viols.size() < 400) viols.push_back({key, detail.substr(0, 2000)});
    }
    bool check(bool ok, const std::string& key, const std::function<std::string()>& detail) {
        ++traces;// one answer of the implementation compared with the model's
        if (!ok) viol(key, detail());
        return ok;
    }

    static std::string esc(const std::string& s) {
        std::string r;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r;
    }
    int finish() {
        std::ostringstream o;
        o << "{\"states\":" << states << ",\"transitions\":" << transitions << ",\"traces\":" << traces
          << ",\"viol_total\":" << viol_total << ",\"dims\":{";
        bool f = true;
        for (auto& d : dims) { o << (f ? "" : ",") << '"' << esc(d.first) << "\":" << d.second; f = false; }
        o << "},\"samples\":[";
        f = true;
        for (auto& s : samples) { o << (f ? "" : ",") << '"' << esc(s) << '"'; f = false; }
        o << "],\"violations\":[";
        f = true;
        for (auto& v : viols) {
            o << (f ? "" : ",") << "{\"key\":\"" << esc(v.key) << "\",\"detail\":\"" << esc(v.detail) << "\"}";
            f = false;
        }
        o << "]}\n";
        if (out.empty()) fputs(o.str().c_str(), stdout);
        else {
            FILE* fp = fopen(out.c_str(), "w");
            if (!fp) return 3;
            fputs(o.str().c_str(), fp);
            fclose(fp);
        }
        return 0;
    }
};

template <typename... Args>
std::string cat(const Args&... args) {
    std::ostringstream o;
    o.precision(17);
    (void) std::initializer_list<int>{(o << args, 0)...};
    return o.str();
}

}// namespace vh
#endif
