#include "pbt.hpp"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <optional>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// ---------------------------------------------------------------- coverage
// Harness and /repo sources are built with -fsanitize-coverage=trace-pc, this
// file is not.  Edges are hashed into a bitmap, AFL style.
namespace
{
constexpr std::size_t covSize = 1 << 16;
unsigned char         covMap[covSize];
std::uintptr_t        covPrev    = 0;
std::uintptr_t        covBase    = 0;
bool                  covEnabled = false;
bool                  covSeen    = false;
} // namespace

extern "C" void __sanitizer_cov_trace_pc()
{
    if (!covEnabled)
    {
        covSeen = true;
        return;
    }
    std::uintptr_t pc  = (std::uintptr_t)__builtin_return_address(0) - covBase;
    std::uintptr_t idx = (pc ^ covPrev) * 0x9e3779b97f4a7c15ull >> 48;
    if (covMap[idx] < 255)
        ++covMap[idx];
    covPrev = pc * 31 + 7;
}

namespace pbt
{

void Source::writeNote(const std::string& s)
{
    [[maybe_unused]] auto w = write(notesFd_, s.data(), s.size());
}

namespace
{

typedef std::vector<u64> Choices;

u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
u64 hashStr(const std::string& s)
{
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
u64 hashChoices(const Choices& c)
{
    u64 h = 17;
    for (u64 v : c)
        h = mix(h, v);
    return h;
}

double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

void armTimer(double seconds)
{
    itimerval t{};
    t.it_value.tv_sec  = (long)seconds;
    t.it_value.tv_usec = (long)((seconds - (double)(long)seconds) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
}

enum class Verdict
{
    pass    = 0,
    fail    = 10,
    known   = 11,
    discard = 12
};

struct Result
{
    Verdict     verdict = Verdict::pass;
    std::string msg{};
};

std::set<std::string> listedFindings;

Result evaluate(const Sub& sub, Source& s)
{
    try
    {
        sub.run(s);
        return {};
    }
    catch (const Discard&)
    {
        return {Verdict::discard, ""};
    }
    catch (const Failure& f)
    {
        return {Verdict::fail, f.msg};
    }
    catch (const Known& k)
    {
        if (listedFindings.count(k.id))
            return {Verdict::known, k.id};
        return {Verdict::fail, "[" + k.id + "] " + k.msg};
    }
    catch (const std::exception& e)
    {
        return {Verdict::fail, std::string{"unexpected exception: "} + e.what()};
    }
}

constexpr std::size_t msgSize = 1 << 14;

struct WorkerShm
{
    volatile long sub;
    volatile long index;
    volatile int  failed;
    volatile int  inCase;
    char          msg[msgSize];
    u64           mirror[Source::mirrorCapacity + 8];
};

void setMsg(char* dst, const std::string& m)
{
    std::size_t n = std::min(m.size(), msgSize - 1);
    std::memcpy(dst, m.data(), n);
    dst[n] = 0;
}

template <class T>
T* shared(std::size_t n = 1)
{
    void* p = mmap(
        nullptr,
        sizeof(T) * n,
        PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
        -1,
        0
    );
    if (p == MAP_FAILED)
    {
        std::perror("mmap");
        std::exit(3);
    }
    return static_cast<T*>(p);
}

std::string describeStatus(int st, double limit)
{
    if (WIFSIGNALED(st))
    {
        int sig = WTERMSIG(st);
        if (sig == SIGPROF)
            return cat("did not terminate within ", limit, " s of CPU time");
        return cat("crashed with signal ", sig, " (", strsignal(sig), ")");
    }
    return cat("exited with status ", WEXITSTATUS(st), " (sanitizer report)");
}

// ------------------------------------------------------------ isolated replay
struct Iso
{
    Verdict     verdict;
    std::string msg;
    Choices     used;
    std::string notes;
};

WorkerShm* isoShm = nullptr;

Iso isolated(const Sub& sub, const Choices& c, bool quiet, bool verbose, double limit)
{
    isoShm->failed    = 0;
    isoShm->mirror[0] = 0;
    isoShm->msg[0]    = 0;

    char notesPath[] = "/tmp/pbt-notes-XXXXXX";
    int  nfd         = verbose ? mkstemp(notesPath) : -1;

    std::fflush(stdout);
    std::fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        if (quiet)
        {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
            dup2(fd, 1);
        }
        Source s{c, verbose};
        s.setMirror(isoShm->mirror);
        s.setNotesFd(nfd);
        armTimer(limit);
        Result r = evaluate(sub, s);
        armTimer(0);
        setMsg(isoShm->msg, r.msg);
        _exit((int)r.verdict);
    }
    int st = 0;
    waitpid(pid, &st, 0);

    Iso iso{};
    iso.used.assign(isoShm->mirror + 1, isoShm->mirror + 1 + isoShm->mirror[0]);
    if (WIFEXITED(st)
        && (WEXITSTATUS(st) == 0 || (WEXITSTATUS(st) >= 10 && WEXITSTATUS(st) <= 12)))
    {
        iso.verdict = (Verdict)WEXITSTATUS(st);
        iso.msg     = isoShm->msg;
    }
    else
    {
        iso.verdict = Verdict::fail;
        iso.msg     = describeStatus(st, limit);
    }
    if (nfd >= 0)
    {
        std::ifstream     in{notesPath};
        std::stringstream ss;
        ss << in.rdbuf();
        iso.notes = ss.str();
        close(nfd);
        unlink(notesPath);
    }
    return iso;
}

// lexicographically smaller / shorter
bool simpler(const Choices& a, const Choices& b)
{
    if (a.size() != b.size())
        return a.size() < b.size();
    return a < b;
}

Choices shrink(const Sub& sub, Choices best, double wall, long& evals)
{
    double start = now();
    double limit = std::min(sub.cpuLimit, 6.0);

    auto attempt = [&](const Choices& c) {
        if (now() - start > wall)
            return false;
        ++evals;
        Iso iso = isolated(sub, c, true, false, limit);
        if (iso.verdict != Verdict::fail)
            return false;
        Choices n = simpler(iso.used, c) ? iso.used : c;
        // trim trailing zeros, they are implied
        if (simpler(n, best))
        {
            best = n;
            return true;
        }
        return false;
    };

    bool progress = true;
    while (progress && now() - start < wall)
    {
        progress = false;
        // delete chunks
        for (std::size_t size = std::max<std::size_t>(best.size() / 2, 1); size >= 1; size /= 2)
        {
            for (std::size_t i = 0; i + size <= best.size();)
            {
                Choices c = best;
                c.erase(c.begin() + i, c.begin() + i + size);
                if (attempt(c))
                    progress = true;
                else
                    i += std::max<std::size_t>(size / 2, 1);
                if (now() - start > wall)
                    return best;
            }
            if (size == 1)
                break;
        }
        // zero chunks
        for (std::size_t size = 8; size >= 1; size /= 2)
        {
            for (std::size_t i = 0; i < best.size(); i += size)
            {
                Choices c = best;
                bool    z = true;
                for (std::size_t k = i; k < std::min(i + size, c.size()); ++k)
                {
                    z    = z && c[k] == 0;
                    c[k] = 0;
                }
                if (!z && attempt(c))
                    progress = true;
            }
            if (size == 1)
                break;
        }
        // minimise single values
        for (std::size_t i = 0; i < best.size(); ++i)
        {
            u64 lo = 0;
            while (i < best.size() && best[i] > lo && now() - start < wall)
            {
                u64     mid = lo + (best[i] - lo) / 2;
                Choices c   = best;
                c[i]        = mid;
                if (attempt(c))
                    progress = true;
                else
                    lo = mid + 1;
                if (i >= best.size())
                    break;
            }
        }
    }
    return best;
}

// ------------------------------------------------------------------- workers
struct SubStats
{
    long                        cases = 0, nontrivial = 0, discarded = 0, mutated = 0;
    std::unordered_set<u64>     distinct{};
    std::map<std::string, long> labels{};
    std::map<std::string, long> known{};
    std::vector<Choices>        samples{};
    std::size_t                 corpus = 0;
    std::size_t                 edges  = 0;
};

struct Options
{
    std::string tier = "quick", evidence, replayDir, knownFile, onlySub;
    u64         seed    = 1;
    int         workers = 8;
    double      budget  = 0;
    double      scale   = 1;
    bool        noCov   = false;
};

u64 caseSeed(const Property& p, const Sub& sub, u64 seed, long i)
{
    return mix(mix(mix(hashStr(p.id), hashStr(sub.name)), seed * 0x2545F4914F6CDD1Dull + 11), (u64)i);
}

struct Fuzzer
{
    std::vector<Choices> corpus{};
    std::vector<unsigned char> virgin = std::vector<unsigned char>(covSize, 0);
    u64 state;
    u64 next()
    {
        u64 z = (state += 0x9e3779b97f4a7c15ull);
        z     = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z     = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n == 0 ? 0 : next() % n; }

    static unsigned char bucket(unsigned char c)
    {
        if (c == 0)
            return 0;
        if (c <= 3)
            return (unsigned char)(1 << (c - 1));
        if (c <= 7)
            return 8;
        if (c <= 15)
            return 16;
        if (c <= 31)
            return 32;
        if (c <= 127)
            return 64;
        return 128;
    }

    bool interesting()
    {
        bool novel = false;
        for (std::size_t i = 0; i < covSize; ++i)
        {
            if (covMap[i] == 0)
                continue;
            unsigned char b = bucket(covMap[i]);
            if (b & ~virgin[i])
            {
                virgin[i] |= b;
                novel = true;
            }
        }
        return novel;
    }

    Choices mutate()
    {
        // newer entries are favoured
        std::size_t n = corpus.size();
        std::size_t k = below(2) ? below(n) : n - 1 - below(std::min<u64>(n, 16));
        Choices     c = corpus[k];
        u64         m = 1 + below(4);
        for (u64 j = 0; j < m; ++j)
        {
            std::size_t len = c.size();
            if (len == 0)
                break;
            switch (below(7))
            {
                case 0: c[below(len)] = next(); break;
                case 1: c[below(len)] = below(16); break;
                case 2:
                {
                    std::size_t i = below(len);
                    c[i] += below(2) ? 1 : ~u64(0);
                    break;
                }
                case 3: // delete a chunk
                {
                    std::size_t i = below(len), l = 1 + below(std::min<u64>(len - i, 8));
                    c.erase(c.begin() + i, c.begin() + i + std::min(l, len - i));
                    break;
                }
                case 4: // duplicate a chunk
                {
                    std::size_t i = below(len), l = std::min<std::size_t>(1 + below(16), len - i);
                    Choices     part(c.begin() + i, c.begin() + i + l);
                    c.insert(c.begin() + below(len), part.begin(), part.end());
                    break;
                }
                case 5: // splice
                {
                    const Choices& o = corpus[below(n)];
                    std::size_t    i = below(len);
                    c.resize(i);
                    if (i < o.size())
                        c.insert(c.end(), o.begin() + i, o.end());
                    break;
                }
                default: // fresh tail
                    c.resize(below(len));
            }
        }
        return c;
    }
};

void runWorker(
    const Property& p,
    const Options&  opt,
    int             w,
    WorkerShm*      shm,
    const std::string& statsPath,
    double          deadline,
    const std::set<std::pair<int, long>>& skip,
    std::optional<std::pair<int, long>> stopAt = std::nullopt
)
{
    std::vector<SubStats> stats(p.subs.size());
    bool                  thorough = opt.tier == "thorough";
    bool                  capped   = false;

    // A deterministic split: each sub-property gets its own share of the time cap.
    for (std::size_t si = 0; si < p.subs.size(); ++si)
    {
        const Sub& sub = p.subs[si];
        if (!opt.onlySub.empty() && sub.name != opt.onlySub)
            continue;
        SubStats& st = stats[si];
        long      n  = (long)((double)(thorough ? sub.thorough : sub.quick) * opt.scale);
        double subDeadline = now() + (deadline - now()) / (double)(p.subs.size() - si);

        Fuzzer fz{};
        fz.state = caseSeed(p, sub, opt.seed, -1 - w);
        bool useCov = covSeen && !opt.noCov;

        for (long i = w; i < n; i += opt.workers)
        {
            if ((i / opt.workers) % 8 == 0 && now() > subDeadline)
            {
                capped = true;
                break;
            }
            bool doMutate = useCov && fz.corpus.size() >= 4 && (i / opt.workers) % 2 == 1;

            Source s = doMutate
                         ? Source{fz.mutate(), caseSeed(p, sub, opt.seed, i)}
                         : Source{caseSeed(p, sub, opt.seed, i)};
            s.setMirror(shm->mirror);

            shm->sub    = (long)si;
            shm->index  = i;
            if (skip.count({(int)si, i}))
                continue;

            if (useCov)
            {
                std::memset(covMap, 0, sizeof covMap);
                covPrev = 0;
            }
            shm->inCase = 1;
            armTimer(sub.cpuLimit);
            covEnabled = useCov;
            Result r   = evaluate(sub, s);
            covEnabled = false;
            armTimer(0);
            shm->inCase = 0;

            ++st.cases;
            st.mutated += doMutate;
            if (r.verdict == Verdict::discard)
                ++st.discarded;
            if (r.verdict == Verdict::known)
                ++st.known[r.msg];
            if (r.verdict == Verdict::fail)
            {
                setMsg(shm->msg, r.msg);
                shm->failed = 1;
                _exit(1);
            }
            for (const auto& l : s.labels())
                ++st.labels[l];
            if (s.isNontrivial())
            {
                ++st.nontrivial;
                if (st.distinct.size() < 200000)
                    st.distinct.insert(hashChoices(s.used()));
                if (w == 0 && st.samples.size() < 40)
                    st.samples.push_back(s.used());
            }
            if (useCov && r.verdict != Verdict::discard && s.used().size() < 20000
                && fz.interesting())
                fz.corpus.push_back(s.used());

            if (stopAt && stopAt->first == (int)si && stopAt->second == i)
                _exit(0);
        }
        st.corpus = fz.corpus.size();
        for (unsigned char b : fz.virgin)
            st.edges += b != 0;
    }

    std::ofstream out{statsPath, std::ios::binary};
    out << (capped ? 1 : 0) << '\n';
    for (auto& st : stats)
    {
        out << st.cases << ' ' << st.nontrivial << ' ' << st.discarded << ' ' << st.mutated
            << ' ' << st.corpus << ' ' << st.edges << '\n';
        out << st.labels.size() << '\n';
        for (auto& [l, c] : st.labels)
            out << c << ' ' << l << '\n';
        out << st.known.size() << '\n';
        for (auto& [l, c] : st.known)
            out << c << ' ' << l << '\n';
        out << st.samples.size() << '\n';
        for (auto& c : st.samples)
        {
            out << c.size();
            for (u64 v : c)
                out << ' ' << v;
            out << '\n';
        }
        out << st.distinct.size() << '\n';
        for (u64 h : st.distinct)
            out << h << '\n';
    }
    out.close();
    _exit(0);
}

bool readStats(const std::string& path, std::vector<SubStats>& all, bool& capped)
{
    std::ifstream in{path, std::ios::binary};
    int           cap = 0;
    if (!(in >> cap))
        return false;
    capped = capped || cap;
    for (auto& st : all)
    {
        SubStats t;
        in >> t.cases >> t.nontrivial >> t.discarded >> t.mutated >> t.corpus >> t.edges;
        st.cases += t.cases;
        st.nontrivial += t.nontrivial;
        st.discarded += t.discarded;
        st.mutated += t.mutated;
        st.corpus += t.corpus;
        st.edges = std::max(st.edges, t.edges);
        std::size_t n = 0;
        auto readMap = [&](std::map<std::string, long>& m) {
            in >> n;
            for (std::size_t i = 0; i < n; ++i)
            {
                long        c;
                std::string l;
                in >> c;
                in.get();
                std::getline(in, l);
                m[l] += c;
            }
        };
        readMap(st.labels);
        readMap(st.known);
        in >> n;
        for (std::size_t i = 0; i < n; ++i)
        {
            std::size_t len;
            in >> len;
            Choices c(len);
            for (auto& v : c)
                in >> v;
            st.samples.push_back(std::move(c));
        }
        in >> n;
        for (std::size_t i = 0; i < n; ++i)
        {
            u64 h;
            in >> h;
            st.distinct.insert(h);
        }
    }
    return (bool)in;
}

std::string json(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        switch (c)
        {
            case '"': o += "\\\""; break;
            case '\\': o += "\\\\"; break;
            case '\n': o += "\\n"; break;
            case '\t': o += "\\t"; break;
            default:
                if (c < 0x20 || c >= 0x7f)
                {
                    char b[8];
                    std::snprintf(b, sizeof b, "\\u%04x", c);
                    o += b;
                }
                else
                    o += (char)c;
        }
    }
    return o + "\"";
}

struct Finding
{
    std::string id, text;
};

std::vector<Finding> loadFindings(const std::string& path, const std::string& prop)
{
    // lines:  finding: property=C01 id=<token> <text>
    std::vector<Finding> res;
    std::ifstream        in{path};
    std::string          line;
    while (std::getline(in, line))
    {
        std::string head = "finding: property=" + prop + " id=";
        if (line.rfind(head, 0) != 0)
            continue;
        std::string rest = line.substr(head.size());
        auto        sp   = rest.find(' ');
        res.push_back({rest.substr(0, sp), sp == std::string::npos ? "" : rest.substr(sp + 1)});
    }
    return res;
}

std::string writeReplay(
    const Property& p,
    const Sub&      sub,
    const Options&  opt,
    const Choices&  c,
    const std::string& msg,
    const std::string& notes
)
{
    char name[64];
    std::snprintf(name, sizeof name, "%016llx", (unsigned long long)hashChoices(c));
    std::string   path = opt.replayDir + "/" + p.id + "-" + sub.name + "-" + name + ".replay";
    std::ofstream out{path};
    out << "property " << p.id << "\nsub " << sub.name << "\nchoices " << c.size();
    for (u64 v : c)
        out << ' ' << v;
    out << "\n# " << msg << "\n";
    std::istringstream ss{notes};
    std::string        l;
    while (std::getline(ss, l))
        out << "# " << l << '\n';
    return path;
}

int doReplay(const Property& p, const std::string& path)
{
    std::ifstream in{path};
    std::string   word, prop, subName;
    in >> word >> prop >> word >> subName >> word;
    for (const Sub& sub : p.subs)
    {
        if (sub.name != subName)
            continue;
        if (word == "sequence")
        {
            // the failure needs the cases before it in the same process
            Options opt;
            int     w, si;
            long    idx;
            in >> opt.tier >> opt.seed >> opt.workers >> w >> si >> idx;
            WorkerShm* shm = shared<WorkerShm>();
            pid_t      pid = fork();
            if (pid == 0)
                runWorker(p, opt, w, shm, "/dev/null", now() + 1e6, {}, std::make_pair(si, idx));
            int st = 0;
            waitpid(pid, &st, 0);
            bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            std::printf("replay %s/%s (sequence): %s %s\n", prop.c_str(), subName.c_str(),
                        bad ? "FAILS" : "passes", bad ? shm->msg : "");
            return bad ? 1 : 0;
        }
        std::size_t n;
        in >> n;
        Choices c(n);
        for (auto& v : c)
            in >> v;
        std::printf("replay %s/%s\n", prop.c_str(), subName.c_str());
        std::fflush(stdout);
        Iso iso = isolated(sub, c, false, true, sub.cpuLimit);
        std::printf("%s", iso.notes.c_str());
        std::printf("%s %s\n", iso.verdict == Verdict::fail ? "FAILS:" : "passes", iso.msg.c_str());
        return iso.verdict == Verdict::fail ? 1 : 0;
    }
    std::fprintf(stderr, "no such sub-property\n");
    return 2;
}

} // namespace


int main(int argc, char** argv, const Property& p)
{
    Options opt;
    std::string mode = argc > 1 ? argv[1] : "run";
    std::string replayPath;
    for (int i = 2; i < argc; ++i)
    {
        std::string a    = argv[i];
        auto        next = [&]() { return std::string{i + 1 < argc ? argv[++i] : ""}; };
        if (a == "--tier")
            opt.tier = next();
        else if (a == "--seed")
            opt.seed = std::strtoull(next().c_str(), nullptr, 10);
        else if (a == "--evidence")
            opt.evidence = next();
        else if (a == "--replay-dir")
            opt.replayDir = next();
        else if (a == "--known")
            opt.knownFile = next();
        else if (a == "--workers")
            opt.workers = std::atoi(next().c_str());
        else if (a == "--budget")
            opt.budget = std::atof(next().c_str());
        else if (a == "--scale")
            opt.scale = std::atof(next().c_str());
        else if (a == "--sub")
            opt.onlySub = next();
        else if (a == "--no-cov")
            opt.noCov = true;
        else
            replayPath = a;
    }
    covBase = (std::uintptr_t)&covMap;
    isoShm  = shared<WorkerShm>();

    auto findings = loadFindings(opt.knownFile, p.id);
    for (auto& f : findings)
        listedFindings.insert(f.id);

    if (mode == "replay")
        return doReplay(p, replayPath);

    if (opt.budget == 0)
        opt.budget = opt.tier == "thorough" ? 600 : 200;
    if (opt.replayDir.empty())
        opt.replayDir = ".";

    double start = now();
    // find out whether the harness is instrumented
    for (auto& sub : p.subs)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
            Source s{std::vector<u64>{}, false};
            armTimer(10);
            evaluate(sub, s);
            _exit(covSeen ? 42 : 0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42)
            covSeen = true;
        if (covSeen)
            break;
    }

    std::vector<SubStats> all(p.subs.size());
    bool                  capped       = false;
    long                  violations   = 0;
    long                  unreproduced = 0;
    std::string           violationLine, violationMsg;
    std::set<std::pair<int, long>> skip;

    for (int round = 0; round < 4; ++round)
    {
        WorkerShm* shm = shared<WorkerShm>((std::size_t)opt.workers);
        char       dir[] = "/tmp/pbt-stats-XXXXXX";
        if (mkdtemp(dir) == nullptr)
        {
            std::perror("mkdtemp");
            return 3;
        }
        double             deadline = start + opt.budget;
        std::vector<pid_t> pids;
        std::fflush(stdout);
        for (int w = 0; w < opt.workers; ++w)
        {
            pid_t pid = fork();
            if (pid == 0)
            {
                // sanitizer reports of workers are noise, the replay shows them
                int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 2);
                runWorker(p, opt, w, shm + w, cat(dir, "/", w), deadline, skip);
            }
            pids.push_back(pid);
        }
        int  failing = -1;
        int  failSt  = 0;
        long left    = opt.workers;
        while (left > 0)
        {
            int   st;
            pid_t pid = waitpid(-1, &st, 0);
            if (pid < 0)
                break;
            auto it = std::find(pids.begin(), pids.end(), pid);
            if (it == pids.end())
                continue;
            --left;
            bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            if (bad && failing < 0)
            {
                failing = (int)(it - pids.begin());
                failSt  = st;
                for (pid_t o : pids)
                    if (o != pid)
                        kill(o, SIGKILL);
            }
        }

        auto cleanup = [&]() {
            for (int w = 0; w < opt.workers; ++w)
                unlink(cat(dir, "/", w).c_str());
            rmdir(dir);
        };

        if (failing < 0)
        {
            for (int w = 0; w < opt.workers; ++w)
                if (!readStats(cat(dir, "/", w), all, capped))
                    std::fprintf(stderr, "warning: no statistics from worker %d\n", w);
            cleanup();
            break;
        }
        cleanup();

        // -------------------------------------------------- a failing case
        WorkerShm&  ws  = shm[failing];
        const Sub&  sub = p.subs[(std::size_t)ws.sub];
        std::string msg = ws.failed ? std::string{ws.msg} : describeStatus(failSt, sub.cpuLimit);
        Choices     original(ws.mirror + 1, ws.mirror + 1 + ws.mirror[0]);
        std::printf(
            "%s/%s: case %ld (seed %llu) fails: %s\n",
            p.id.c_str(),
            sub.name.c_str(),
            (long)ws.index,
            (unsigned long long)opt.seed,
            msg.c_str()
        );
        std::fflush(stdout);

        auto reproduces = [&](const Choices& c) {
            for (int k = 0; k < 3; ++k)
                if (isolated(sub, c, true, false, sub.cpuLimit).verdict != Verdict::fail)
                    return false;
            return true;
        };

        if (reproduces(original))
        {
            long    evals = 0;
            Choices best  = shrink(sub, original, opt.tier == "thorough" ? 60 : 25, evals);
            if (!reproduces(best))
                best = original;
            Iso iso = isolated(sub, best, true, true, sub.cpuLimit);
            if (iso.verdict == Verdict::fail)
                msg = iso.msg;
            std::string path = writeReplay(p, sub, opt, best, msg, iso.notes);
            std::printf(
                "shrunk from %zu to %zu choices in %ld replays: %s\n%s",
                original.size(),
                best.size(),
                evals,
                msg.c_str(),
                iso.notes.substr(0, 6000).c_str()
            );
            // show the sanitizer report, if any
            isolated(sub, best, false, false, sub.cpuLimit);
            violationLine = "VIOLATION property=" + p.id + " replay=" + path;
            violationMsg  = msg;
            violations    = 1;
            break;
        }

        // the failure may need the history of this worker
        int repro = 0;
        for (int k = 0; k < 3; ++k)
        {
            WorkerShm* s2 = shared<WorkerShm>();
            std::fflush(stdout);
            pid_t pid = fork();
            if (pid == 0)
            {
                int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 2);
                runWorker(
                    p, opt, failing, s2, "/dev/null", now() + 1e6, skip,
                    std::make_pair((int)ws.sub, (long)ws.index)
                );
            }
            int st;
            waitpid(pid, &st, 0);
            repro += !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            munmap(s2, sizeof(WorkerShm));
        }
        if (repro == 3)
        {
            std::string path = opt.replayDir + "/" + p.id + "-" + sub.name + "-sequence.replay";
            std::ofstream out{path};
            out << "property " << p.id << "\nsub " << sub.name << "\nsequence " << opt.tier << ' '
                << opt.seed << ' ' << opt.workers << ' ' << failing << ' ' << ws.sub << ' '
                << ws.index << "\n# " << msg << '\n';
            out.close();
            violationLine = "VIOLATION property=" + p.id + " replay=" + path;
            violationMsg  = msg;
            violations    = 1;
            break;
        }
        std::printf("not reproduced in isolation (%d/3 as a sequence); inconclusive\n", repro);
        ++unreproduced;
        skip.insert({(int)ws.sub, (long)ws.index});
        munmap(shm, sizeof(WorkerShm) * (std::size_t)opt.workers);
    }

    // ------------------------------------------------------------ evidence
    long evaluations = 0, nontrivial = 0, distinct = 0;
    std::map<std::string, long> known;
    for (auto& st : all)
    {
        evaluations += st.cases;
        nontrivial += st.nontrivial;
        distinct += (long)st.distinct.size();
        for (auto& [k, c] : st.known)
            known[k] += c;
    }

    std::string samples;
    for (std::size_t si = 0; si < p.subs.size(); ++si)
    {
        auto& v = all[si].samples;
        if (v.empty())
            continue;
        std::stable_sort(v.begin(), v.end(), [](const Choices& a, const Choices& b) {
            return a.size() < b.size();
        });
        for (std::size_t k : std::set<std::size_t>{0, v.size() / 3})
        {
            Iso iso = isolated(p.subs[si], v[k], true, true, p.subs[si].cpuLimit);
            std::string text = iso.notes.size() > 1500 ? iso.notes.substr(0, 1500) + " ..." : iso.notes;
            if (!samples.empty())
                samples += ",\n   ";
            samples += "{\"sub\": " + json(p.subs[si].name) + ", \"case\": " + json(text) + "}";
        }
    }

    double wall = now() - start;
    if (!opt.evidence.empty())
    {
        std::ofstream out{opt.evidence};
        out << "{\n \"property\": " << json(p.id) << ",\n \"tier\": " << json(opt.tier)
            << ",\n \"seed\": " << opt.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
            << "  \"evaluations\": " << evaluations << ",\n  \"nontrivial\": " << nontrivial
            << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"rule\": " << json(p.rule)
            << ",\n  \"stopped_by_time_cap\": " << (capped ? "true" : "false")
            << ",\n  \"unreproduced_failures\": " << unreproduced << ",\n  \"sub_properties\": [";
        for (std::size_t si = 0; si < p.subs.size(); ++si)
        {
            auto& st = all[si];
            out << (si ? ",\n   " : "\n   ") << "{\"name\": " << json(p.subs[si].name)
                << ", \"evaluations\": " << st.cases << ", \"nontrivial\": " << st.nontrivial
                << ", \"distinct_nontrivial\": " << st.distinct.size()
                << ", \"discarded\": " << st.discarded
                << ", \"coverage_guided_mutants\": " << st.mutated
                << ", \"coverage_corpus\": " << st.corpus << ", \"edge_slots_hit\": " << st.edges
                << ", \"classes\": {";
            bool first = true;
            for (auto& [l, c] : st.labels)
            {
                out << (first ? "" : ", ") << json(l) << ": " << c;
                first = false;
            }
            out << "}}";
        }
        out << "\n  ],\n  \"known_findings_hit\": {";
        bool first = true;
        for (auto& [k, c] : known)
        {
            out << (first ? "" : ", ") << json(k) << ": " << c;
            first = false;
        }
        out << "},\n  \"samples\": [\n   " << samples << "\n  ]\n },\n \"assumptions\": [";
        for (std::size_t i = 0; i < p.assumptions.size(); ++i)
            out << (i ? ", " : "") << json(p.assumptions[i]);
        out << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations
            << (violations ? ",\n \"violation\": " + json(violationMsg) : std::string{}) << "\n}\n";
    }

    for (std::size_t si = 0; si < p.subs.size(); ++si)
    {
        auto& st = all[si];
        std::printf(
            "%s/%s: %ld cases, %ld non-trivial (%zu distinct), %ld discarded, %ld mutants, corpus %zu, edges %zu\n",
            p.id.c_str(), p.subs[si].name.c_str(), st.cases, st.nontrivial, st.distinct.size(),
            st.discarded, st.mutated, st.corpus, st.edges
        );
        std::string ls;
        for (auto& [l, c] : st.labels)
            ls += cat(" ", l, "=", c);
        if (!ls.empty())
            std::printf("   classes:%s\n", ls.c_str());
    }
    for (auto& f : findings)
        std::printf("KNOWN-FINDING: property=%s %s (%ld cases)\n", p.id.c_str(), f.text.c_str(), known[f.id]);
    std::printf("%s: %.1f s%s\n", p.id.c_str(), wall, capped ? " (time cap reached)" : "");
    if (violations)
    {
        std::printf("%s\n", violationLine.c_str());
        return 1;
    }
    return 0;
}

} // namespace pbt
