// Bounded exhaustive explorer. A harness registers families; a family has roots (configurations); the body of a
// family is run once per leaf of the tree of its choose() answers, in depth-first order, for every root.
// Work is spread over forked workers; a crash or hang of the code under test is a reportable failure of the path
// that was running, confirmed by re-running that path alone.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc
{
constexpr int MAXC = 6000;

struct Violation
{
    std::string msg;
};

struct Slot
{
    std::atomic<uint64_t> start_ms; // wall clock of current path start; 0 when idle
    uint32_t fam;
    uint64_t job;
    uint64_t root;
    int n;
    int adv; // how many leading choices are forced (prefix)
    int16_t choice[MAXC];
    int16_t arity[MAXC];
    char key[200];
    uint64_t paths, ops, nodes, evals;
    int done;
};

struct Shm
{
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
    Slot slot[64];
};

inline std::string vfmt(const char* f, va_list ap)
{
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}
inline uint64_t hash_mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++)
        h = (h ^ c[i]) * 1099511628211ull;
    return h;
}

inline bool& thorough_flag()
{
    static bool b = false;
    return b;
}
inline bool thorough() { return thorough_flag(); }
template <class T>
inline T tier(T quick, T deep)
{
    return thorough() ? deep : quick;
}

class Ctx
{
public:
    Slot* s        = nullptr;
    FILE* desc     = nullptr; // when describing
    int pos        = 0;
    std::unordered_set<uint64_t>* outcomes = nullptr;
    bool replaying = false;
    std::string family_name;

    // The engine's only source of nondeterminism.
    int choose(int n, const char* what = nullptr)
    {
        if (n <= 0)
            infra("choose(0)");
        if (pos >= MAXC)
            infra("too many choices on a path");
        int v;
        if (pos < s->n)
        {
            v = s->choice[pos];
            if (v >= n)
                infra("diverged: a replayed prefix met a smaller choice");
            if (s->arity[pos] != 0 && s->arity[pos] != n)
                infra("diverged: a replayed prefix met a different choice");
            s->arity[pos] = (int16_t)n;
        }
        else
        {
            v                = 0;
            s->choice[pos]   = 0;
            s->arity[pos]    = (int16_t)n;
            s->n             = pos + 1;
            s->nodes++;
        }
        ++pos;
        if (desc && what)
            log("%s=%d/%d", what, v, n);
        return v;
    }
    bool flip(const char* what = nullptr) { return choose(2, what) == 1; }
    template <class C>
    auto pick(const C& c, const char* what = nullptr)
    {
        auto it = std::begin(c);
        std::advance(it, choose((int)std::size(c), what));
        return *it;
    }
    template <class T>
    T pick(std::initializer_list<T> c, const char* what = nullptr)
    {
        return *(c.begin() + choose((int)c.size(), what));
    }
    void op(uint64_t n = 1) { s->ops += n; }
    void eval(uint64_t n = 1) { s->evals += n; }
    void outcome(uint64_t h)
    {
        if (outcomes && outcomes->size() < 1500000)
            outcomes->insert(h);
    }
    __attribute__((format(printf, 2, 3))) void log(const char* f, ...)
    {
        if (!desc)
            return;
        va_list ap;
        va_start(ap, f);
        vfprintf(desc, f, ap);
        va_end(ap);
        fputs("; ", desc);
        fflush(desc);
    }
    __attribute__((format(printf, 2, 3))) void key(const char* f, ...)
    {
        va_list ap;
        va_start(ap, f);
        vsnprintf(s->key, sizeof s->key, f, ap);
        va_end(ap);
    }
    [[noreturn]] __attribute__((format(printf, 2, 3))) void fail(const char* f, ...)
    {
        va_list ap;
        va_start(ap, f);
        std::string m = vfmt(f, ap);
        va_end(ap);
        throw Violation{ m };
    }
    [[noreturn]] void infra(const char* m)
    {
        fprintf(stderr, "mc: infrastructure error: %s\n", m);
        _exit(77);
    }
};

#define MC_CHECK(c, cond, ...)                                                                               \
    do                                                                                                       \
    {                                                                                                        \
        if (!(cond))                                                                                         \
            (c).fail(__VA_ARGS__);                                                                           \
    } while (0)

struct Family
{
    std::string name;
    uint64_t roots;
    std::function<void(Ctx&, uint64_t)> body;
    double path_limit = 60; // seconds before a path is suspected of hanging
};
inline std::vector<Family>& families()
{
    static std::vector<Family> f;
    return f;
}
inline void add(const std::string& name, uint64_t roots, std::function<void(Ctx&, uint64_t)> body,
                double path_limit = 60)
{
    families().push_back({ name, roots, std::move(body), path_limit });
}

inline uint64_t now_ms()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

struct Fail
{
    std::string family, key, msg, desc, kind;
    uint64_t root = 0;
    std::vector<int> choices;
    uint64_t count = 1;
};

inline std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
            r += '\\', r += (char)ch;
        else if (ch == '\n')
            r += "\\n";
        else if (ch < 32 || ch > 126)
            r += fmt("\\u%04x", ch);
        else
            r += (char)ch;
    }
    return r;
}

// Runs one path. Returns false and fills msg when the path violates.
inline bool run_path(Family& f, Ctx& c, std::string& msg)
{
    c.pos         = 0;
    c.s->key[0]   = 0;
    c.family_name = f.name;
    try
    {
        f.body(c, c.s->root);
    }
    catch (const Violation& v)
    {
        msg = v.msg;
        return false;
    }
    catch (const std::exception& e)
    {
        msg = std::string("unexpected exception: ") + e.what();
        return false;
    }
    catch (...)
    {
        msg = "unexpected exception";
        return false;
    }
    return true;
}

inline bool advance(Slot* s)
{
    int i = s->n - 1;
    while (i >= 0 && s->choice[i] + 1 >= s->arity[i])
        --i;
    if (i < 0)
        return false;
    s->choice[i]++;
    s->n = i + 1;
    s->nodes++;
    return true;
}

inline std::vector<std::pair<uint32_t, uint64_t>>& jobs()
{
    static std::vector<std::pair<uint32_t, uint64_t>> j;
    return j;
}

inline void worker(Shm* sh, int w, bool resume, const std::string& tmp, uint64_t deadline)
{
    Slot* s = &sh->slot[w];
    std::unordered_set<uint64_t> outc;
    std::map<std::string, uint64_t> seen;
    FILE* ff = fopen((tmp + fmt("/fail.%d", w)).c_str(), "a");
    Ctx c;
    c.s        = s;
    c.outcomes = &outc;
    bool have  = resume;
    if (resume && !advance(s))
        have = false;
    bool any = true;
    while (any && !sh->stop.load())
    {
        if (!have)
        {
            uint64_t j = sh->next.fetch_add(1);
            if (j >= jobs().size())
                break;
            s->job  = j;
            s->fam  = jobs()[j].first;
            s->root = jobs()[j].second;
            s->n    = 0;
            s->nodes++;
        }
        have      = false;
        Family& f = families()[s->fam];
        for (;;)
        {
            s->start_ms.store(now_ms());
            std::string msg;
            bool ok = run_path(f, c, msg);
            s->start_ms.store(0);
            s->paths++;
            if (!ok)
            {
                std::string k = f.name + (s->key[0] ? std::string(":") + s->key : "");
                if (seen[k]++ == 0)
                {
                    fprintf(ff, "F\n%u\n%lu\n%s\n", s->fam, (unsigned long)s->root, k.c_str());
                    for (int i = 0; i < s->n; i++)
                        fprintf(ff, "%d ", s->choice[i]);
                    std::string m = msg;
                    for (auto& ch : m)
                        if (ch == '\n')
                            ch = ' ';
                    fprintf(ff, "\n%s\n", m.c_str());
                    fflush(ff);
                }
                if (seen[k] > 2000)
                    break; // this root keeps failing the same way
            }
            s->n = std::max(c.pos, 0); // choices beyond the failing point do not exist
            if (sh->stop.load() || now_ms() > deadline)
            {
                if (now_ms() > deadline)
                    sh->stop.store(2);
                any = false;
                break;
            }
            if (!advance(s))
                break;
        }
    }
    FILE* fo = fopen((tmp + fmt("/out.%d", w)).c_str(), "ab");
    for (uint64_t h : outc)
        fwrite(&h, 8, 1, fo);
    fclose(fo);
    fclose(ff);
    s->done = 1;
    fflush(stdout);
    fflush(stderr);
    _exit(0);
}

// Runs one recorded path in a fresh child. kind: 0 passed, 1 violated, 2 crashed, 3 hung
inline int run_alone(uint32_t fam, uint64_t root, const std::vector<int>& ch, double limit, std::string& msg,
                     std::string& desc, const std::string& tmp)
{
    std::string df = tmp + "/desc", mf = tmp + "/msg", ef = tmp + "/err";
    unlink(df.c_str());
    unlink(mf.c_str());
    Slot* s = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)s, 0, sizeof(Slot));
    s->fam  = fam;
    s->root = root;
    s->n    = (int)ch.size();
    for (size_t i = 0; i < ch.size(); i++)
        s->choice[i] = (int16_t)ch[i];
    pid_t p = fork();
    if (p == 0)
    {
        int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        Ctx c;
        c.s         = s;
        c.replaying = true;
        c.desc      = fopen(df.c_str(), "w");
        std::string m;
        bool ok = run_path(families()[fam], c, m);
        fclose(c.desc);
        FILE* f = fopen(mf.c_str(), "w");
        fputs(m.c_str(), f);
        fclose(f);
        _exit(ok ? 0 : 1);
    }
    uint64_t t0 = now_ms();
    int st = 0, r = -1;
    for (;;)
    {
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p)
            break;
        if (now_ms() - t0 > limit * 1000)
        {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            r = 3;
            break;
        }
        usleep(2000);
    }
    auto slurp = [](const std::string& n)
    {
        std::string o;
        if (FILE* f = fopen(n.c_str(), "r"))
        {
            char b[4096];
            size_t k;
            while ((k = fread(b, 1, sizeof b, f)) > 0)
                o.append(b, k);
            fclose(f);
        }
        return o;
    };
    desc = slurp(df);
    msg  = slurp(mf);
    if (r == 3)
        msg = fmt("did not finish within %.0f s", limit);
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        r = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 1)
        r = 1;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
        r = 4;
    else
    {
        r             = 2;
        std::string e = slurp(ef);
        size_t q      = e.find("ERROR:");
        std::string h = q == std::string::npos ? e.substr(0, 300) : e.substr(q, 600);
        for (auto& chh : h)
            if (chh == '\n')
                chh = ' ';
        msg = WIFSIGNALED(st) ? fmt("crashed with signal %d: ", WTERMSIG(st)) + h
                              : fmt("terminated with exit status %d: ", WEXITSTATUS(st)) + h;
    }
    munmap((void*)s, sizeof(Slot));
    return r;
}

inline int main_(int argc, char** argv)
{
    std::string out, replay, only, tmp = "/tmp";
    double deadline_s = 3600;
    int nworkers      = 8;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next     = [&] { return std::string(argv[++i]); };
        if (a == "--out")
            out = next();
        else if (a == "--replay")
            replay = next();
        else if (a == "--only")
            only = next();
        else if (a == "--tmp")
            tmp = next();
        else if (a == "--deadline")
            deadline_s = atof(next().c_str());
        else if (a == "--workers")
            nworkers = atoi(next().c_str());
        else if (a == "--thorough")
            ; // seen before registration
    }
    if (!replay.empty())
    {
        FILE* f = fopen(replay.c_str(), "r");
        if (!f)
            return 2;
        char line[65536], fam[256] = "";
        unsigned long root = 0;
        std::vector<int> ch;
        while (fgets(line, sizeof line, f))
        {
            if (!strncmp(line, "family ", 7))
                sscanf(line + 7, "%255s", fam);
            else if (!strncmp(line, "root ", 5))
                root = strtoul(line + 5, nullptr, 10);
            else if (!strncmp(line, "choices", 7))
            {
                char* p = line + 7;
                char* e;
                for (;;)
                {
                    long v = strtol(p, &e, 10);
                    if (e == p)
                        break;
                    ch.push_back((int)v);
                    p = e;
                }
            }
        }
        fclose(f);
        for (uint32_t k = 0; k < families().size(); k++)
            if (families()[k].name == fam)
            {
                std::string m, d;
                int r = run_alone(k, root, ch, families()[k].path_limit * 4, m, d, tmp);
                printf("%s: %s\n%s\n", r == 0 ? "PASS" : r == 4 ? "DIVERGED" : "FAIL", m.c_str(), d.c_str());
                return r == 0 ? 0 : 1;
            }
        printf("unknown family %s\n", fam);
        return 2;
    }
    for (uint32_t k = 0; k < families().size(); k++)
        if (only.empty() || families()[k].name.find(only) == 0)
            for (uint64_t r = 0; r < families()[k].roots; r++)
                jobs().push_back({ k, r });
    uint64_t t0       = now_ms();
    uint64_t deadline = t0 + (uint64_t)(deadline_s * 1000);
    Shm* sh = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, sizeof(Shm));
    std::vector<pid_t> pid(nworkers, 0);
    auto spawn = [&](int w, bool resume)
    {
        fflush(stdout);
        fflush(stderr);
        pid_t p = fork();
        if (p == 0)
        {
            int fd = open((tmp + fmt("/err.%d", w)).c_str(), O_CREAT | O_APPEND | O_WRONLY, 0644);
            dup2(fd, 2);
            worker(sh, w, resume, tmp, deadline);
        }
        pid[w] = p;
    };
    for (int w = 0; w < nworkers; w++)
        spawn(w, false);
    std::vector<Fail> fails;
    std::map<std::string, int> crash_keys;
    int crashes = 0, live = nworkers, infra = 0;
    std::vector<std::string> notes;
    while (live > 0)
    {
        bool idle = true;
        for (int w = 0; w < nworkers; w++)
        {
            if (!pid[w])
                continue;
            int st;
            pid_t q   = waitpid(pid[w], &st, WNOHANG);
            Slot* s   = &sh->slot[w];
            bool hung = false;
            if (q == 0)
            {
                uint64_t st0 = s->start_ms.load();
                if (st0 && now_ms() > st0 &&
                    now_ms() - st0 > (uint64_t)(families()[s->fam].path_limit * 1000))
                {
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &st, 0);
                    hung = true;
                }
                else
                    continue;
            }
            idle = false;
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->done)
            {
                pid[w] = 0;
                --live;
                continue;
            }
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 77)
            {
                infra  = 1;
                pid[w] = 0;
                --live;
                continue;
            }
            // crash or hang of the path in the slot
            Family& f = families()[s->fam];
            Fail fl;
            fl.family = f.name;
            fl.key    = f.name + (s->key[0] ? std::string(":") + s->key : "");
            fl.root   = s->root;
            fl.choices.assign(s->choice, s->choice + s->n);
            fl.kind = hung ? "hang" : "crash";
            s->start_ms.store(0);
            s->paths++;
            if (crash_keys[fl.key]++ < 2)
            {
                int r = run_alone(s->fam, s->root, fl.choices, f.path_limit * 4, fl.msg, fl.desc, tmp);
                if (r == 2 || r == 3 || r == 1)
                    fails.push_back(fl);
                else
                    notes.push_back(fl.kind + " not reproduced alone: " + fl.key);
            }
            if (++crashes > 60)
            {
                sh->stop.store(1);
                pid[w] = 0;
                --live;
            }
            else
                spawn(w, true);
        }
        if (idle)
            usleep(5000);
    }
    // collect in-process failures
    std::map<std::string, Fail> bykey;
    for (int w = 0; w < nworkers; w++)
    {
        FILE* f = fopen((tmp + fmt("/fail.%d", w)).c_str(), "r");
        if (!f)
            continue;
        char* line = nullptr;
        size_t cap = 0;
        auto rd    = [&](std::string& o)
        {
            ssize_t n = getline(&line, &cap, f);
            if (n <= 0)
                return false;
            o.assign(line, n);
            while (!o.empty() && o.back() == '\n')
                o.pop_back();
            return true;
        };
        std::string a, b, k, chs, m, fl;
        while (rd(a) && rd(fl) && rd(b) && rd(k) && rd(chs) && rd(m))
        {
            Fail x;
            x.family = families()[strtoul(fl.c_str(), 0, 10)].name;
            x.key    = k;
            x.msg    = m;
            x.root   = strtoull(b.c_str(), 0, 10);
            x.kind   = "violation";
            const char* p = chs.c_str();
            char* e;
            for (;;)
            {
                long v = strtol(p, &e, 10);
                if (e == p)
                    break;
                x.choices.push_back((int)v);
                p = e;
            }
            auto it = bykey.find(k);
            if (it == bykey.end() || x.root < it->second.root ||
                (x.root == it->second.root && x.choices.size() < it->second.choices.size()))
                bykey[k] = x;
        }
        free(line);
        fclose(f);
    }
    int confirmed = 0;
    for (auto& kv : bykey)
    {
        Fail& x      = kv.second;
        uint32_t fam = 0;
        while (families()[fam].name != x.family)
            ++fam;
        if (++confirmed > 200)
            break;
        std::string m1, m2;
        int r  = run_alone(fam, x.root, x.choices, families()[fam].path_limit * 4, m1, x.desc, tmp);
        if (r == 0)
        {
            // never report what does not replay
            notes.push_back("violation not reproduced alone: " + x.key + ": " + x.msg);
            continue;
        }
        x.msg = m1;
        fails.push_back(x);
    }
    uint64_t paths = 0, ops = 0, nodes = 0, evals = 0;
    for (int w = 0; w < nworkers; w++)
        paths += sh->slot[w].paths, ops += sh->slot[w].ops, nodes += sh->slot[w].nodes,
            evals += sh->slot[w].evals;
    std::vector<uint64_t> hs;
    for (int w = 0; w < nworkers; w++)
        if (FILE* f = fopen((tmp + fmt("/out.%d", w)).c_str(), "rb"))
        {
            uint64_t h;
            while (fread(&h, 8, 1, f) == 1)
                hs.push_back(h);
            fclose(f);
        }
    std::sort(hs.begin(), hs.end());
    hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    // sample descriptions: the first path of the first and last root of each family
    std::vector<std::string> samples;
    if (fails.empty())
        for (uint32_t k = 0; k < families().size() && samples.size() < 6; k++)
        {
            if (!only.empty() && families()[k].name.find(only) != 0)
                continue;
            if (!families()[k].roots)
                continue;
            uint64_t r = families()[k].roots / 2;
            std::string m, d;
            run_alone(k, r, {}, families()[k].path_limit * 4, m, d, tmp);
            samples.push_back(families()[k].name + fmt(" root %lu: ", (unsigned long)r) + d.substr(0, 600));
        }
    bool complete = sh->stop.load() == 0 && !infra;
    std::string j = "{";
    j += fmt("\"paths\":%lu,\"ops\":%lu,\"nodes\":%lu,\"evals\":%lu,\"outcomes\":%lu,\"complete\":%s,\"infra\":%d,"
             "\"wall\":%.2f,",
             (unsigned long)paths, (unsigned long)ops, (unsigned long)nodes, (unsigned long)evals,
             (unsigned long)hs.size(), complete ? "true" : "false", infra, (now_ms() - t0) / 1000.0);
    j += "\"families\":[";
    for (size_t k = 0; k < families().size(); k++)
        j += fmt("%s{\"name\":\"%s\",\"roots\":%lu}", k ? "," : "", families()[k].name.c_str(),
                 (unsigned long)families()[k].roots);
    j += "],\"samples\":[";
    for (size_t k = 0; k < samples.size(); k++)
        j += (k ? ",\"" : "\"") + jesc(samples[k]) + "\"";
    j += "],\"notes\":[";
    for (size_t k = 0; k < notes.size() && k < 20; k++)
        j += (k ? ",\"" : "\"") + jesc(notes[k]) + "\"";
    j += "],\"fails\":[";
    for (size_t k = 0; k < fails.size(); k++)
    {
        auto& x = fails[k];
        j += (k ? ",{" : "{");
        j += "\"family\":\"" + x.family + "\",\"key\":\"" + jesc(x.key) + "\",\"kind\":\"" + x.kind +
             "\",\"msg\":\"" + jesc(x.msg) + "\",\"desc\":\"" + jesc(x.desc.substr(0, 20000)) +
             fmt("\",\"root\":%lu,\"choices\":[", (unsigned long)x.root);
        for (size_t i = 0; i < x.choices.size(); i++)
            j += fmt(i ? ",%d" : "%d", x.choices[i]);
        j += "]}";
    }
    j += "]}\n";
    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "w");
        fputs(j.c_str(), f);
        fclose(f);
    }
    else
        fputs(j.c_str(), stdout);
    return 0;
}
} // namespace mc

// A harness defines void mc_register(); and includes this macro once.
#define MC_MAIN()                                                                                            \
    int main(int argc, char** argv)                                                                          \
    {                                                                                                        \
        for (int i = 1; i < argc; i++)                                                                       \
            if (std::string(argv[i]) == "--thorough")                                                        \
                mc::thorough_flag() = true;                                                                  \
        mc_register();                                                                                       \
        return mc::main_(argc, argv);                                                                        \
    }
