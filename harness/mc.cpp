#include "mc.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>
#include <exception>

namespace mc {

static const int MAX_DEPTH = 4096;
static const int SHARD_PRODUCT = 96;

struct Shared {            // one per worker, mmap shared with the parent
    volatile int alive;
    volatile uint64_t beat;       // execution counter
    volatile double exec_start;   // monotonic
    char family[64];
    volatile int depth;
    int choices[MAX_DEPTH];
    char where[256];
};

static std::vector<std::pair<int, int>> path;   // (choice, n)
static size_t pos;
static uint64_t shard_product, shard_index;
static bool shard_cut;
static int nworkers = 1, worker = 0;
static bool tracing_ = false;
static bool thorough_ = false;
static std::string trace_;
static std::vector<std::string> labels_;
static Shared* sh = nullptr;
static uint64_t n_exec, n_edges, n_trans, n_eval, n_pruned;
static size_t new_from;   // depth of the first choice that is new in this execution
static std::unordered_set<uint64_t> states_, nontriv_;
static std::string fail_key, fail_msg;
static bool in_exec = false;

struct SkipShard {};

std::vector<Family>& families() { static std::vector<Family> f; return f; }

static double mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

int choose(int n, const char* label) {
    if (n <= 0) { fprintf(stderr, "mc: choose(%d) %s\n", n, label); abort(); }
    if (pos >= MAX_DEPTH) { fprintf(stderr, "mc: depth limit at %s\n", label); abort(); }
    int c;
    if (pos < path.size()) {
        if (path[pos].second == -1) path[pos].second = n;   // replay vectors carry no arity
        if (path[pos].second != n) {
            fprintf(stderr, "mc: nondeterministic harness at depth %zu (%s): arity %d, was %d\n", pos, label, n, path[pos].second);
            _exit(97);
        }
        c = path[pos].first;
        if (c >= n) { fprintf(stderr, "mc: replay choice out of range\n"); _exit(97); }
    } else {
        c = 0;
        path.emplace_back(0, n);
    }
    if (sh && pos < MAX_DEPTH) sh->choices[pos] = c;
    if (tracing_) { std::ostringstream os; os << "  choice " << pos << ": " << label << " = " << c << " of " << n << "\n"; trace_ += os.str(); }
    if (pos >= new_from) ++n_edges;
    ++pos;
    if (sh) sh->depth = static_cast<int>(pos);
    if (!shard_cut && nworkers > 1) {
        shard_index = shard_index * static_cast<uint64_t>(n) + static_cast<uint64_t>(c);
        shard_product *= static_cast<uint64_t>(n);
        if (shard_product >= SHARD_PRODUCT) {
            shard_cut = true;
            uint64_t h = shard_index * 0x9E3779B97F4A7C15ull; h ^= h >> 32;
            if (static_cast<int>(h % static_cast<uint64_t>(nworkers)) != worker) throw SkipShard{};
        }
    }
    return c;
}

void prune() { throw Pruned{}; }
void fail(const std::string& key, const std::string& msg) { fail_key = key; fail_msg = msg; throw Failed{}; }
void transition(uint64_t n) { n_trans += n; }
bool state(uint64_t h) {
    // Nodes on the replayed prefix were recorded when they were first reached: never prune there.
    const bool fresh = states_.insert(h).second;
    return fresh || tracing_ || pos <= new_from;
}
void evaluated(uint64_t n) { n_eval += n; }
void nontrivial(uint64_t h) { nontriv_.insert(h); }
bool thorough() { return thorough_; }
bool replaying() { return tracing_; }
void note(const std::string& s) { if (tracing_) trace_ += "  " + s + "\n"; }
void where(const char* s) { if (sh) { strncpy(sh->where, s, sizeof(sh->where) - 1); } }

struct Viol { std::string family, key, msg, choices, trace; };

static std::string vec_str(size_t n) {
    std::ostringstream os;
    for (size_t i = 0; i < n; ++i) os << (i ? "," : "") << path[i].first;
    return os.str();
}

enum Outcome { DONE, PRUNED, FAILED, SKIPPED };

static Outcome run_once(const Family& f) {
    pos = 0; shard_product = 1; shard_index = 0; shard_cut = false;
    if (sh) { sh->depth = 0; sh->where[0] = 0; sh->exec_start = mono(); }
    in_exec = true;
    try { f.fn(); }
    catch (const Pruned&) { in_exec = false; return PRUNED; }
    catch (const Failed&) { in_exec = false; return FAILED; }
    catch (const SkipShard&) { in_exec = false; return SKIPPED; }
    catch (const std::exception& e) { fail_key = std::string("exception:") + f.name; fail_msg = std::string("unexpected exception escaped: ") + e.what(); in_exec = false; return FAILED; }
    catch (...) { fail_key = std::string("exception:") + f.name; fail_msg = "unexpected non-standard exception escaped"; in_exec = false; return FAILED; }
    in_exec = false;
    return DONE;
}

static void json_str(std::ostream& o, const std::string& s) {
    o << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o << '\\' << c;
        else if (c == '\n') o << "\\n";
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o << b; }
        else if (c >= 127) o << '?';
        else o << c;
    }
    o << '"';
}

static void dump_set(const std::string& file, const std::unordered_set<uint64_t>& s) {
    FILE* f = fopen(file.c_str(), "wb");
    for (uint64_t h : s) fwrite(&h, 8, 1, f);
    fclose(f);
}
static uint64_t merge_sets(const std::vector<std::string>& files) {
    std::unordered_set<uint64_t> all;
    for (auto& fn : files) {
        FILE* f = fopen(fn.c_str(), "rb");
        if (!f) continue;
        uint64_t h;
        while (fread(&h, 8, 1, f) == 1) all.insert(h);
        fclose(f);
        unlink(fn.c_str());
    }
    return all.size();
}

static std::vector<std::string> samples_;

static void explore(const Family& f, std::vector<Viol>& viols, double deadline, bool& truncated) {
    path.clear(); new_from = 0;
    std::set<std::string> keys;
    uint64_t local = 0;
    while (true) {
        Outcome o = run_once(f);
        if (sh) ++sh->beat;
        bool owned = o != SKIPPED && !(nworkers > 1 && !shard_cut && worker != 0);
        if (owned) { ++n_exec; if (o == PRUNED) ++n_pruned; ++local; }
        if (owned && o == DONE && (local == 1 || local == 17) ) {
            // keep a written-out sample of this family
            std::string save = trace_; trace_.clear(); bool st = tracing_; tracing_ = true;
            auto sp = path; size_t snf = new_from; uint64_t e = n_edges, t = n_trans, v = n_eval; new_from = MAX_DEPTH + 1;
            path.resize(pos); run_once(f);
            samples_.push_back(std::string(f.name) + ":\n" + trace_.substr(0, 1500));
            tracing_ = st; trace_ = save; path = sp; new_from = snf; n_edges = e; n_trans = t; n_eval = v;
        }
        if (o == FAILED && owned && !keys.count(fail_key) && keys.size() < 20) {
            keys.insert(fail_key);
            Viol v; v.family = f.name; v.key = fail_key; v.msg = fail_msg; v.choices = vec_str(pos);
            auto sp = path; size_t sps = pos; size_t snf = new_from; uint64_t e = n_edges, t = n_trans, ev = n_eval; new_from = MAX_DEPTH + 1;
            tracing_ = true; trace_.clear(); path.resize(pos);
            Outcome o2 = run_once(f);
            if (o2 != FAILED) v.msg += " (NOT reproduced on re-execution)";
            v.trace = trace_; tracing_ = false; trace_.clear();
            path = sp; pos = sps; new_from = snf; n_edges = e; n_trans = t; n_eval = ev;
            viols.push_back(v);
        }
        // backtrack
        path.resize(pos);
        while (!path.empty() && path.back().first + 1 >= path.back().second) path.pop_back();
        if (path.empty()) break;
        path.back().first++;
        new_from = path.size() - 1;
        if ((n_exec & 63) == 0 && deadline > 0 && mono() > deadline) { truncated = true; break; }
    }
}

static int worker_main(int w, const std::vector<const Family*>& fams, const std::string& base, double deadline) {
    worker = w;
    std::vector<Viol> viols;
    bool truncated = false;
    std::ostringstream per;
    for (size_t i = 0; i < fams.size(); ++i) {
        strncpy(sh->family, fams[i]->name, sizeof(sh->family) - 1);
        uint64_t e0 = n_exec, t0 = n_trans, g0 = n_edges;
        explore(*fams[i], viols, deadline, truncated);
        per << fams[i]->name << " " << (n_exec - e0) << " " << (n_trans - t0) << " " << (n_edges - g0) << "\n";
    }
    dump_set(base + ".states." + std::to_string(w), states_);
    dump_set(base + ".nontriv." + std::to_string(w), nontriv_);
    {
        std::ofstream o(base + ".fam." + std::to_string(w)); o << per.str();
    }
    {
        std::ofstream o(base + ".cnt." + std::to_string(w));
        o << n_exec << " " << n_edges << " " << n_trans << " " << n_eval << " " << n_pruned << " " << (truncated ? 1 : 0) << "\n";
    }
    {
        std::ofstream o(base + ".smp." + std::to_string(w));
        for (size_t i = 0; i < samples_.size() && w == 0; ++i) { json_str(o, samples_[i]); o << "\n"; }
    }
    {
        std::ofstream o(base + ".viol." + std::to_string(w));
        for (auto& v : viols) {
            o << "{\"family\":"; json_str(o, v.family); o << ",\"key\":"; json_str(o, v.key); o << ",\"msg\":"; json_str(o, v.msg);
            o << ",\"choices\":"; json_str(o, v.choices); o << ",\"trace\":"; json_str(o, v.trace.substr(0, 20000)); o << "}\n";
        }
    }
    return 0;
}

int run_main(int argc, char** argv) {
    std::string out = "mc_result.json", replay_family, replay_choices, only;
    int jobs = 8; double budget = 0; bool do_replay = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--tier") thorough_ = next() == "thorough";
        else if (a == "--out") out = next();
        else if (a == "--jobs") jobs = atoi(next().c_str());
        else if (a == "--budget") budget = atof(next().c_str());
        else if (a == "--only") only = next();
        else if (a == "--replay") { do_replay = true; replay_family = next(); replay_choices = next(); }
        else if (a == "--list") { for (auto& f : families()) std::cout << f.name << (f.quick ? "" : " (thorough)") << "\n"; return 0; }
    }
    if (do_replay) {
        for (auto& f : families()) if (replay_family == f.name) {
            std::stringstream ss(replay_choices); std::string tok;
            while (std::getline(ss, tok, ',')) if (!tok.empty()) path.emplace_back(atoi(tok.c_str()), -1);
            tracing_ = true; nworkers = 1; new_from = MAX_DEPTH + 1;
            Outcome o = run_once(f);
            std::cout << "family " << f.name << "\n" << trace_;
            if (o == FAILED) { std::cout << "REPRODUCED key=" << fail_key << ": " << fail_msg << "\n"; return 1; }
            std::cout << "no violation on replay\n";
            return 0;
        }
        std::cerr << "unknown family\n"; return 2;
    }
    std::vector<const Family*> fams;
    for (auto& f : families()) if ((f.quick || thorough_) && (only.empty() || only == f.name)) fams.push_back(&f);
    nworkers = jobs;
    Shared* all = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    double t0 = mono();
    std::vector<pid_t> pids(jobs, 0);
    for (int w = 0; w < jobs; ++w) {
        fflush(nullptr);
        all[w].exec_start = mono();
        pid_t p = fork();
        if (p == 0) {
            sh = &all[w];
            int dn = open((out + ".err." + std::to_string(w)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
            if (dn >= 0) { dup2(dn, 2); dup2(dn, 1); }
            int r = worker_main(w, fams, out, budget > 0 ? t0 + budget : 0);
            fflush(nullptr);
            _exit(r);
        }
        pids[w] = p;
    }
    std::vector<std::string> crashes;
    int live = jobs;
    std::vector<bool> hung(jobs, false);
    while (live > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int w = int(std::find(pids.begin(), pids.end(), p) - pids.begin());
            --live; pids[w] = -1;
            bool bad = WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0);
            if (bad) {
                std::ostringstream ch; for (int i = 0; i < all[w].depth; ++i) ch << (i ? "," : "") << all[w].choices[i];
                std::ifstream ef(out + ".err." + std::to_string(w)); std::stringstream es; es << ef.rdbuf();
                std::string err = es.str(); if (err.size() > 3000) err = err.substr(0, 1500) + "\n...\n" + err.substr(err.size() - 1500);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { std::cerr << "HARNESS-ERROR " << err << "\n"; return 3; }
                std::ostringstream o;
                std::string key = hung[w] ? "hang:" : "crash:";
                key += all[w].family; if (all[w].where[0]) { key += ":"; key += all[w].where; }
                o << "{\"family\":"; json_str(o, all[w].family); o << ",\"key\":"; json_str(o, key);
                std::ostringstream m; if (hung[w]) m << "execution did not terminate (operation hangs)"; else if (WIFSIGNALED(st)) m << "process died with signal " << WTERMSIG(st); else m << "process exited with status " << WEXITSTATUS(st);
                if (all[w].where[0]) m << " in " << all[w].where;
                o << ",\"msg\":"; json_str(o, m.str()); o << ",\"choices\":"; json_str(o, ch.str()); o << ",\"trace\":"; json_str(o, err); o << "}";
                crashes.push_back(o.str());
            }
            continue;
        }
        double now = mono();
        for (int w = 0; w < jobs; ++w) if (pids[w] > 0) {
            double lim = 30; for (auto* f : fams) if (!strcmp(f->name, all[w].family)) lim = f->hang_s;
            if (now - all[w].exec_start > lim && all[w].family[0] && all[w].depth >= 0) { hung[w] = true; kill(pids[w], SIGKILL); }
        }
        usleep(3000);
    }
    uint64_t tot[5] = {0, 0, 0, 0, 0}; bool trunc = false;
    std::vector<std::string> sf, nf; std::map<std::string, std::vector<uint64_t>> fam;
    std::ostringstream viol; bool first = true; std::ostringstream smp; bool sfirst = true;
    for (int w = 0; w < jobs; ++w) {
        std::string s = std::to_string(w);
        std::ifstream c(out + ".cnt." + s); uint64_t x;
        for (int k = 0; k < 5; ++k) if (c >> x) tot[k] += x;
        if (c >> x) trunc |= x != 0;
        std::ifstream ff(out + ".fam." + s); std::string nm; uint64_t a, b, g;
        while (ff >> nm >> a >> b >> g) { auto& v = fam[nm]; v.resize(3); v[0] += a; v[1] += b; v[2] += g; }
        sf.push_back(out + ".states." + s); nf.push_back(out + ".nontriv." + s);
        std::ifstream vf(out + ".viol." + s); std::string line;
        while (std::getline(vf, line)) { viol << (first ? "" : ",\n") << line; first = false; }
        std::ifstream pf(out + ".smp." + s);
        while (std::getline(pf, line)) { smp << (sfirst ? "" : ",\n") << line; sfirst = false; }
        for (const char* e : {".cnt.", ".fam.", ".viol.", ".smp.", ".err."}) unlink((out + e + s).c_str());
    }
    for (auto& c : crashes) { viol << (first ? "" : ",\n") << c; first = false; }
    uint64_t ns = merge_sets(sf), nn = merge_sets(nf);
    std::ofstream o(out);
    o << "{\"executions\":" << tot[0] << ",\"tree_edges\":" << tot[1] << ",\"transitions\":" << tot[2] << ",\"evaluations\":" << tot[3]
      << ",\"pruned\":" << tot[4] << ",\"states\":" << ns << ",\"nontrivial\":" << nn << ",\"truncated\":" << (trunc ? "true" : "false")
      << ",\"wall_s\":" << (mono() - t0) << ",\"families\":{";
    bool f1 = true;
    for (auto& k : fam) { o << (f1 ? "" : ",") << "\"" << k.first << "\":{\"executions\":" << k.second[0] << ",\"transitions\":" << k.second[1] << ",\"tree_edges\":" << k.second[2] << "}"; f1 = false; }
    o << "},\"samples\":[" << smp.str() << "],\"violations\":[" << viol.str() << "]}\n";
    return 0;
}

}

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::run_main(argc, argv); }
#endif
