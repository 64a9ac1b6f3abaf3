/* Runner for a property: forked workers, crash capture, shrinking, replay. */
#include "pbt.hpp"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <fstream>
#include <iostream>
#include <map>
#include <typeinfo>
#include <unordered_set>

namespace pbt {
static std::string g_scratch = ".";
const std::string& scratch() { return g_scratch; }
}
using namespace pbt;

#ifdef PBT_LIBFUZZER
static std::set<std::string> g_known_fz;
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    const char* s = getenv("PBT_SCRATCH");
    pbt::g_scratch = std::string(s ? s : "/tmp") + "/fz" + std::to_string(getpid());
    mkdir(pbt::g_scratch.c_str(), 0700);
    if (const char* k = getenv("PBT_KNOWN")) {
        std::stringstream ss(k); std::string t;
        while (std::getline(ss, t, ',')) g_known_fz.insert(t);
    }
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    Case c; c.mode = Mode::Bytes; c.bytes = d; c.nbytes = n; c.known = &g_known_fz; c.tier = 1;
    std::cout.clear();
    try { property(c); }
    catch (const Discard&) { return -1; }
    catch (const Failure& f) { fprintf(stderr, "PBT FAILURE: %s\n", f.msg.c_str()); abort(); }
    catch (const std::exception& e) { fprintf(stderr, "PBT FAILURE: escaped exception %s\n", e.what()); abort(); }
    return 0;
}
#else

static const size_t MAXCH = 1 << 19, MAXSP = 1 << 15, MAXH = 1 << 19, MAXL = 160;

enum St : int { S_IDLE = 0, S_RUNNING = 1, S_OK = 2, S_FAIL = 3, S_DISCARD = 4, S_TIMEOUT = 5, S_CRASH = 6 };

struct LabelC { char name[56]; uint64_t n; };
struct KnownC { char id[40]; char what[400]; uint64_t n; };
struct Shm {
    uint64_t cases, discards, nontriv, nh, next_index, batch_begin;
    volatile int st;
    uint64_t nlive, nspans;
    char msg[8192], desc[8192];
    LabelC labels[MAXL];
    KnownC known[16];
    char sample[4][3000]; uint64_t nsample;
    uint64_t hashes[MAXH];
    uint64_t live[MAXCH];
    Span spans[MAXSP];
};

struct Opt {
    uint64_t seed = 1; double seconds = 10; uint64_t min_cases = 1000, max_cases = UINT64_MAX;
    int workers = 8; double case_cpu = 20; std::string out, replay_out, replay, bytes; int tier = 0, tries = 1;
    double shrink_s = 25; std::set<std::string> known; uint64_t batch = 400; bool verbose = false;
} O;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static Shm* new_shm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<Shm*>(p);
}
static Shm* g_shm;
static void cpu_handler(int) {
    g_shm->st = S_TIMEOUT;
    _exit(12);
}
static void arm(double cpu) {
    struct itimerval it{}; it.it_value.tv_sec = static_cast<long>(cpu);
    it.it_value.tv_usec = static_cast<long>((cpu - std::floor(cpu)) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}
static void cpy(char* d, size_t n, const std::string& s) {
    size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0;
}
static void clean_dir(const std::string& d) {
    DIR* h = opendir(d.c_str()); if (!h) return;
    while (auto* e = readdir(h)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        unlink((d + "/" + n).c_str());
    }
    closedir(h);
}
static uint64_t case_rng(uint64_t idx) {
    uint64_t s = O.seed * 0x2545F4914F6CDD1DULL + 0x1234567ULL; Case::mix(s);
    s ^= (idx + 1) * 0xD6E8FEB86659FD93ULL; Case::mix(s); return s;
}
/// Runs one case in this process; fills shm; returns status.
static int run_case(Case& c, Shm* sh, double cpu) {
    c.tier = O.tier; c.known = &O.known;
    sh->nlive = 0; sh->nspans = 0; sh->msg[0] = 0;
    c.live = sh->live; c.live_n = &sh->nlive; c.live_cap = MAXCH;
    sh->st = S_RUNNING;
    arm(cpu);
    int st = S_OK; std::string msg;
    std::cout.clear();
    try { property(c); }
    catch (const Discard&) { st = S_DISCARD; }
    catch (const Failure& f) { st = S_FAIL; msg = f.msg; }
    catch (const std::exception& e) { st = S_FAIL; msg = std::string("exception escaped: ") + typeid(e).name() + ": " + e.what(); }
    catch (...) { st = S_FAIL; msg = "unknown exception escaped"; }
    arm(0);
    if (st == S_FAIL) cpy(sh->msg, sizeof sh->msg, msg);
    cpy(sh->desc, sizeof sh->desc, c.text);
    sh->nspans = std::min(c.spans.size(), MAXSP);
    for (size_t i = 0; i < sh->nspans; ++i) sh->spans[i] = c.spans[i];
    for (auto& k : c.known_hits)
        for (auto& kc : sh->known) {
            if (kc.id[0] && k.first != kc.id) continue;
            if (!kc.id[0]) { cpy(kc.id, sizeof kc.id, k.first); cpy(kc.what, sizeof kc.what, k.second); }
            ++kc.n; break;
        }
    sh->st = st;
    return st;
}
static void child_setup(const std::string& dir, const std::string& err) {
    mkdir(dir.c_str(), 0700); pbt::g_scratch = dir;
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd);
    fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd);
    signal(SIGPROF, cpu_handler);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
static std::string err_summary(const std::string& f) {
    std::ifstream in(f); std::string l, first, sum;
    int n = 0; std::string frames;
    while (std::getline(in, l)) {
        if (first.empty() && (l.find("ERROR") != std::string::npos || l.find("runtime error") != std::string::npos
            || l.find("terminate called") != std::string::npos || l.find("Assertion") != std::string::npos)) first = l;
        if (l.find("SUMMARY") != std::string::npos) sum = l;
        if (n < 6 && l.find("    #") == 0) { frames += " | " + l.substr(4, 110); ++n; }
    }
    return first + (sum.empty() ? "" : " / " + sum) + frames;
}

struct Eval { int st = S_OK; std::string msg, desc; std::vector<uint64_t> ch; std::vector<Span> sp; };
using Seq = std::vector<uint64_t>;
static std::string g_base;

/// Runs a list of cases (choice sequences) in a fresh child; reports the last.
static Eval eval(const std::vector<Seq>& list, double cpu, const std::vector<uint8_t>* bytes = nullptr) {
    static Shm* sh = new_shm(); g_shm = sh;
    std::string dir = g_base + "/ev", err = g_base + "/ev.err";
    clean_dir(dir);
    sh->st = S_IDLE; sh->nlive = 0; sh->nspans = 0; sh->msg[0] = sh->desc[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        child_setup(dir, err);
        int st = S_OK;
        if (bytes) {
            Case c; c.mode = Mode::Bytes; c.bytes = bytes->data(); c.nbytes = bytes->size();
            st = run_case(c, sh, cpu);
        } else for (auto& s : list) {
            Case c; c.mode = Mode::Replay; c.in = s;
            st = run_case(c, sh, cpu);
            clean_dir(dir);
            if (st == S_FAIL) break;
        }
        _exit(st == S_FAIL ? 10 : 0);
    }
    int w = 0; double t0 = now();
    while (true) {
        pid_t r = waitpid(p, &w, WNOHANG);
        if (r == p) break;
        if (now() - t0 > cpu * 6 + 60) { kill(p, SIGKILL); waitpid(p, &w, 0); Eval e; e.st = S_DISCARD; e.msg = "stuck without using CPU"; return e; }
        usleep(now() - t0 < 0.02 ? 200 : 3000);
    }
    Eval e; e.st = sh->st; e.msg = sh->msg; e.desc = sh->desc;
    if (WIFEXITED(w) && (WEXITSTATUS(w) == 0 || WEXITSTATUS(w) == 10)) {}
    else if (WIFEXITED(w) && WEXITSTATUS(w) == 12) { e.st = S_TIMEOUT; e.msg = "no end after " + show(cpu) + " s of CPU time"; }
    else { e.st = S_CRASH; e.msg = "crash: " + err_summary(err); if (WIFSIGNALED(w)) e.msg += " (signal " + std::to_string(WTERMSIG(w)) + ")"; }
    e.ch.assign(sh->live, sh->live + sh->nlive);
    e.sp.assign(sh->spans, sh->spans + sh->nspans);
    return e;
}
static bool bad(int st) { return st == S_FAIL || st == S_CRASH || st == S_TIMEOUT; }

static bool better(const Seq& a, const Seq& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}
static Eval shrink(const std::vector<Seq>& prefix, Eval best, double budget, uint64_t& evals) {
    double end = now() + budget;
    int kind = best.st;
    double cpu = kind == S_TIMEOUT ? 3 : O.case_cpu;
    std::set<uint64_t> seen;
    auto attempt = [&](const Seq& cand) -> bool {
        if (now() > end || evals > 6000) return false;
        if (!better(cand, best.ch)) return false;
        uint64_t h = 1469598103934665603ULL; for (auto x : cand) h = (h ^ x) * 1099511628211ULL ^ (h >> 29);
        if (!seen.insert(h).second) return false;
        ++evals;
        auto l = prefix; l.push_back(cand);
        Eval e = eval(l, cpu);
        for (int i = 1; i < O.tries / 8 && !bad(e.st); ++i) e = eval(l, cpu);
        if (bad(e.st) && e.st == kind && better(e.ch, best.ch)) { best = e; return true; }
        return false;
    };
    bool progress = true;
    while (progress && now() < end && evals < 6000) {
        progress = false;
        // spans, biggest first
        auto sp = best.sp;
        std::sort(sp.begin(), sp.end(), [](Span a, Span b) { return a.e - a.b > b.e - b.b; });
        for (size_t i = 0; i < sp.size() && now() < end; ++i) {
            if (sp[i].e > best.ch.size() || sp[i].b >= sp[i].e) continue;
            Seq c = best.ch; c.erase(c.begin() + sp[i].b, c.begin() + sp[i].e);
            if (attempt(c)) { progress = true; sp = best.sp;
                std::sort(sp.begin(), sp.end(), [](Span a, Span b) { return a.e - a.b > b.e - b.b; }); i = static_cast<size_t>(-1); }
        }
        // chunks
        for (size_t k : {64u, 32u, 16u, 8u, 4u, 3u, 2u, 1u}) {
            for (size_t i = best.ch.size(); i >= k && now() < end;) {
                size_t b = i - k;
                Seq c = best.ch; c.erase(c.begin() + static_cast<long>(b), c.begin() + static_cast<long>(b + k));
                if (attempt(c)) { progress = true; i = std::min(i, best.ch.size()); } 
                else { if (i < 1) break; --i; }
            }
        }
        // values
        for (size_t i = 0; i < best.ch.size() && now() < end; ++i) {
            if (best.ch[i] == 0) continue;
            Seq c = best.ch; c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0;
            while (i < best.ch.size() && best.ch[i] - lo > 1 && now() < end) {
                uint64_t mid = lo + (best.ch[i] - lo) / 2;
                c = best.ch; c[i] = mid;
                uint64_t before = best.ch[i];
                if (attempt(c)) { progress = true; if (i >= best.ch.size() || best.ch[i] >= before) break; }
                else lo = mid;
            }
        }
    }
    return best;
}
static void write_replay(const std::string& f, const std::vector<Seq>& list, const Eval& e) {
    std::ofstream o(f);
    o << "# replay of a failing case; run: python3 check.py <property> --replay <this file>\n";
    std::stringstream m(e.msg); std::string l;
    while (std::getline(m, l)) o << "# " << l << "\n";
    std::stringstream d(e.desc);
    while (std::getline(d, l)) o << "# | " << l << "\n";
    for (auto& s : list) { o << "case"; for (auto x : s) o << ' ' << x; o << "\n"; }
}
static std::vector<Seq> read_replay(const std::string& f) {
    std::ifstream in(f); std::string l; std::vector<Seq> r;
    while (std::getline(in, l)) {
        if (l.compare(0, 4, "case")) continue;
        std::stringstream ss(l.substr(4)); Seq s; uint64_t x; while (ss >> x) s.push_back(x);
        r.push_back(s);
    }
    return r;
}
static std::string js(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += static_cast<char>(ch);
    }
    return r + "\"";
}

/// Confirms, shrinks and stores a failure. Returns true when reproducible.
/// Repeats an evaluation whose outcome depends on how threads are scheduled.
static Eval eval_some(const std::vector<Seq>& list, int tries) {
    Eval e = eval(list, O.case_cpu);
    double end = now() + 15;
    for (int i = 1; i < tries && !bad(e.st) && now() < end; ++i) e = eval(list, O.case_cpu);
    return e;
}
static bool handle_failure(std::vector<Seq> list, std::string& out_msg) {
    Eval e = eval_some({list.back()}, O.tries);
    std::vector<Seq> prefix;
    if (!bad(e.st)) {
        e = eval_some(list, O.tries);
        if (!bad(e.st)) return false;
        prefix.assign(list.begin(), list.end() - 1);
        // shrink the history of cases
        double end = now() + 20;
        for (size_t k = prefix.size(); k >= 1 && now() < end; k /= 2)
            for (size_t i = 0; i + k <= prefix.size() && now() < end;) {
                auto p2 = prefix; p2.erase(p2.begin() + static_cast<long>(i), p2.begin() + static_cast<long>(i + k));
                auto l2 = p2; l2.push_back(list.back());
                Eval e2 = eval(l2, O.case_cpu);
                if (bad(e2.st)) { prefix = p2; e = e2; } else ++i;
            }
    }
    uint64_t evals = 0;
    Eval best = shrink(prefix, e, O.shrink_s, evals);
    auto l = prefix; l.push_back(best.ch);
    // Three confirmations of the final form.
    for (int i = 0; i < 3; ++i) {
        Eval r = eval_some(l, O.tries);
        if (!bad(r.st)) {            // fall back to the unshrunk case
            l = prefix; l.push_back(e.ch); best = e;
            for (int j = 0; j < 3; ++j) if (!bad(eval_some(l, O.tries).st)) return false;
            break;
        }
    }
    write_replay(O.replay_out, l, best);
    out_msg = best.msg;
    std::cerr << "shrunk with " << evals << " evaluations to " << best.ch.size() << " choices\n" << best.msg << "\n" << best.desc << "\n";
    return true;
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") O.seed = std::stoull(v());
        else if (a == "--seconds") O.seconds = std::stod(v());
        else if (a == "--min-cases") O.min_cases = std::stoull(v());
        else if (a == "--max-cases") O.max_cases = std::stoull(v());
        else if (a == "--workers") O.workers = std::stoi(v());
        else if (a == "--case-cpu") O.case_cpu = std::stod(v());
        else if (a == "--scratch") g_base = v();
        else if (a == "--out") O.out = v();
        else if (a == "--replay-out") O.replay_out = v();
        else if (a == "--replay") O.replay = v();
        else if (a == "--bytes") O.bytes = v();
        else if (a == "--tries") O.tries = std::stoi(v());
        else if (a == "--tier") O.tier = std::stoi(v());
        else if (a == "--batch") O.batch = std::stoull(v());
        else if (a == "--known") { std::stringstream ss(v()); std::string t; while (std::getline(ss, t, ',')) O.known.insert(t); }
    }
    if (!O.replay.empty()) {
        auto l = read_replay(O.replay);
        if (l.empty()) { std::cerr << "no cases in replay file\n"; return 2; }
        Eval e = eval_some(l, O.tries);
        std::cout << e.desc << "\n";
        if (bad(e.st)) { std::cout << "FAILS: " << e.msg << "\n"; return 1; }
        std::cout << (e.st == S_DISCARD ? "discarded\n" : "passes\n");
        return 0;
    }
    if (!O.bytes.empty()) {
        std::ifstream in(O.bytes, std::ios::binary);
        std::vector<uint8_t> b((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        Eval e = eval({}, O.case_cpu, &b);
        if (!bad(e.st)) return 3;
        std::string m;
        return handle_failure({e.ch}, m) ? 1 : 3;
    }
    double t0 = now();
    const int W = O.workers;
    std::vector<Shm*> sh(W); std::vector<pid_t> pid(W, 0); std::vector<uint64_t> last(W, 0); std::vector<double> lastt(W, now());
    for (int w = 0; w < W; ++w) { sh[w] = new_shm(); sh[w]->next_index = static_cast<uint64_t>(w); }
    bool stop = false; bool violated = false; std::string vmsg; int unrepro = 0, stuck = 0; std::string unrepro_msg;
    auto total = [&]() { uint64_t t = 0; for (auto* s : sh) t += s->cases; return t; };
    auto want_more = [&]() {
        uint64_t t = total(); double el = now() - t0;
        if (t >= O.max_cases || el > O.seconds * 6 + 60) return false;
        return el < O.seconds || t < O.min_cases;
    };
    auto start = [&](int w) {
        sh[w]->batch_begin = sh[w]->next_index;
        pid[w] = fork();
        if (pid[w] == 0) {
            Shm* s = sh[w]; g_shm = s;
            std::string dir = g_base + "/w" + std::to_string(w);
            child_setup(dir, g_base + "/w" + std::to_string(w) + ".err");
            double deadline = t0 + O.seconds;
            for (uint64_t k = 0; k < O.batch; ++k) {
                if (now() > deadline && total() >= O.min_cases) break;
                if (total() >= O.max_cases) break;
                Case c; c.mode = Mode::Generate; c.rng = case_rng(s->next_index);
                int st = run_case(c, s, O.case_cpu);
                if (st == S_FAIL) _exit(10);
                ++s->cases; s->next_index += static_cast<uint64_t>(W);
                if (st == S_DISCARD) { ++s->discards; continue; }
                if (c.is_nontrivial) {
                    ++s->nontriv;
                    uint64_t h = 1469598103934665603ULL;
                    for (auto x : c.out) { h = (h ^ x) * 1099511628211ULL; h ^= h >> 31; }
                    if (s->nh < MAXH) s->hashes[s->nh++] = h;
                    if (s->nsample < 4 && (s->nontriv % 7) == 1 && !c.text.empty()) cpy(s->sample[s->nsample++], 3000, c.text);
                }
                std::sort(c.labels.begin(), c.labels.end());
                c.labels.erase(std::unique(c.labels.begin(), c.labels.end()), c.labels.end());
                for (auto& l : c.labels)
                    for (auto& lc : s->labels) {
                        if (!lc.name[0]) cpy(lc.name, sizeof lc.name, l);
                        if (l.compare(0, sizeof lc.name - 1, lc.name) == 0) { ++lc.n; break; }
                    }
            }
            clean_dir(dir);
            _exit(0);
        }
        last[w] = ~0ULL; lastt[w] = now();
    };
    for (int w = 0; w < W; ++w) start(w);
    int running = W;
    while (running) {
        int status; pid_t p = waitpid(-1, &status, WNOHANG);
        if (p <= 0) {
            for (int w = 0; w < W; ++w) if (pid[w]) {
                if (sh[w]->cases != last[w]) { last[w] = sh[w]->cases; lastt[w] = now(); }
                else if (now() - lastt[w] > 180) { kill(pid[w], SIGKILL); }
            }
            usleep(2000); continue;
        }
        int w = -1; for (int i = 0; i < W; ++i) if (pid[i] == p) w = i;
        if (w < 0) continue;
        pid[w] = 0; --running;
        if (stop) continue;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
            if (want_more()) { start(w); ++running; }
            continue;
        }
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
            // no CPU use for minutes (or ended from outside): inconclusive
            ++stuck; sh[w]->next_index += static_cast<uint64_t>(W); ++sh[w]->cases;
            if (stuck < 5 && want_more()) { start(w); ++running; }
            continue;
        }
        // Failure: stop the others, keep the failing choices.
        std::string first_msg = sh[w]->st == S_FAIL ? sh[w]->msg : "crash/timeout " + err_summary(g_base + "/w" + std::to_string(w) + ".err");
        Seq failing(sh[w]->live, sh[w]->live + sh[w]->nlive);
        uint64_t bb = sh[w]->batch_begin, fi = sh[w]->next_index;
        std::cerr << "case " << fi << " failed: " << first_msg << "\n";
        stop = true;
        for (int i = 0; i < W; ++i) if (pid[i]) { kill(pid[i], SIGKILL); waitpid(pid[i], nullptr, 0); pid[i] = 0; --running; }
        std::vector<Seq> list;
        // Choices of the earlier cases of the batch, regenerated one by one.
        Eval alone = eval_some({failing}, O.tries);
        if (!bad(alone.st)) {
            Shm* s2 = new_shm();
            std::string f = g_base + "/hist.txt";
            pid_t q = fork();
            if (q == 0) {
                g_shm = s2; child_setup(g_base + "/hist", g_base + "/hist.err");
                std::ofstream o(f);
                for (uint64_t i = bb; i < fi; i += static_cast<uint64_t>(W)) {
                    Case c; c.mode = Mode::Generate; c.rng = case_rng(i); run_case(c, s2, O.case_cpu);
                    o << "case"; for (auto x : c.out) o << ' ' << x; o << "\n" << std::flush;
                }
                _exit(0);
            }
            waitpid(q, nullptr, 0);
            list = read_replay(f);
            munmap(s2, sizeof(Shm));
        }
        list.push_back(failing);
        if (handle_failure(list, vmsg)) { violated = true; break; }
        ++unrepro; unrepro_msg = first_msg;
        if (unrepro >= 5) break;
        stop = false;
        sh[w]->next_index += static_cast<uint64_t>(W); ++sh[w]->cases;
        running = 0;
        if (want_more()) { for (int i = 0; i < W; ++i) start(i); running = W; }
    }
    // Merge.
    std::unordered_set<uint64_t> hs; uint64_t nontriv = 0, disc = 0;
    std::map<std::string, uint64_t> labels; std::map<std::string, std::pair<std::string, uint64_t>> known;
    std::vector<std::string> samples;
    for (auto* s : sh) {
        for (uint64_t i = 0; i < s->nh; ++i) hs.insert(s->hashes[i]);
        nontriv += s->nontriv; disc += s->discards;
        for (auto& l : s->labels) if (l.name[0]) labels[l.name] += l.n;
        for (auto& k : s->known) if (k.id[0]) { known[k.id].second += k.n; if (known[k.id].first.empty()) known[k.id].first = k.what; }
        for (uint64_t i = 0; i < s->nsample && samples.size() < 6; ++i) samples.push_back(s->sample[i]);
    }
    std::ofstream o(O.out);
    o << "{\"violated\":" << (violated ? "true" : "false") << ",\"message\":" << js(vmsg)
      << ",\"evaluations\":" << total() << ",\"discards\":" << disc << ",\"nontrivial\":" << nontriv
      << ",\"distinct_nontrivial\":" << hs.size() << ",\"unreproduced\":" << unrepro << ",\"unreproduced_message\":" << js(unrepro_msg)
      << ",\"stuck\":" << stuck << ",\"wall\":" << now() - t0 << ",\"rule\":" << js(PBT_RULE) << ",\"labels\":{";
    bool f = true; for (auto& l : labels) { o << (f ? "" : ",") << js(l.first) << ":" << l.second; f = false; }
    o << "},\"known\":{"; f = true;
    for (auto& k : known) { o << (f ? "" : ",") << js(k.first) << ":{\"count\":" << k.second.second << ",\"what\":" << js(k.second.first) << "}"; f = false; }
    o << "},\"samples\":["; f = true; for (auto& s : samples) { o << (f ? "" : ",") << js(s); f = false; }
    o << "]}\n";
    return violated ? 1 : 0;
}
#endif
