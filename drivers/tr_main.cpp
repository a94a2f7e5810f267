// Job runner: driver OUTDIR SEED TIER WORKERS [INPUTFILE]
#include "tr.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <iostream>

namespace tr {
FILE* out = nullptr;
std::vector<Job>& jobs() { static std::vector<Job> j; return j; }
std::vector<Registrar>& registrars() { static std::vector<Registrar> r; return r; }
uint64_t seed = 1;
bool thorough = false;
std::string scratch, inputs;
}
using namespace tr;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void run_child(const Job& j, const std::string& file, const std::string& dir)
{
    out = fopen(file.c_str(), "w");
    if (!out) _exit(3);
    setvbuf(out, nullptr, _IOFBF, 1 << 20);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1); dup2(nul, 2);
    mkdir(dir.c_str(), 0700);
    scratch = dir;
    if (chdir(dir.c_str()) != 0) _exit(3);
    rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    rlimit as = {6ULL << 30, 24ULL << 30};
#if !defined(__SANITIZE_THREAD__) && !defined(__SANITIZE_ADDRESS__)
    setrlimit(RLIMIT_AS, &as);
#else
    (void)as;
#endif
    emit(Ev("job").f("name", j.name));
    try {
        j.fn();
    } catch (const std::exception& e) {
        emit(Ev("crash").f("what", std::string("uncaught exception: ") + e.what()));
    } catch (...) {
        emit(Ev("crash").f("what", "uncaught exception"));
    }
    if (fclose(out) != 0) _exit(3);
    _exit(0);
}

int main(int argc, char** argv)
{
    if (argc < 5) { fprintf(stderr, "usage\n"); return 2; }
    std::string od = argv[1];
    seed = strtoull(argv[2], nullptr, 10);
    thorough = std::string(argv[3]) == "thorough";
    unsigned workers = atoi(argv[4]);
    if (argc > 5) inputs = argv[5];
    const char* only = getenv("TR_ONLY");
    for (auto r : registrars()) r();
    auto& js = jobs();
    struct Run { pid_t pid; size_t idx; double start; bool killed; };
    std::vector<Run> run;
    size_t next = 0;
    unsigned hung = 0;       // jobs that gave no answer in time; when there are some, the others get less time
    auto limit = [&](size_t i) { double l = js[i].limit; if (!thorough && l > 150) l = 150; if (hung > 1 && l > 60) l = 60; return l; };
    auto fname = [&](size_t i) { char b[32]; snprintf(b, sizeof b, "/j%06zu.ndjson", i); return od + b; };
    auto dname = [&](size_t i) { char b[32]; snprintf(b, sizeof b, "/d%06zu", i); return od + b; };
    FILE* summary = fopen((od + "/jobs.txt").c_str(), "w");
    while (next < js.size() || !run.empty()) {
        while (next < js.size() && run.size() < workers) {
            if (hung > 5) { next = js.size(); break; }
            if (only && js[next].name.find(only) == std::string::npos) { ++next; continue; }
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 3; }
            if (p == 0) run_child(js[next], fname(next), dname(next));
            run.push_back(Run{p, next, now(), false});
            ++next;
        }
        if (run.empty()) break;
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p == 0) {
            double t = now();
            for (auto& r : run) if (!r.killed && t - r.start > limit(r.idx)) { kill(r.pid, SIGKILL); r.killed = true; ++hung; }
            usleep(500);
            continue;
        }
        if (p < 0) { perror("waitpid"); return 3; }
        for (size_t k = 0; k < run.size(); ++k) if (run[k].pid == p) {
            Run r = run[k];
            run.erase(run.begin() + k);
            std::string what;
            if (r.killed) what = "no answer within the time limit";
            else if (WIFSIGNALED(st)) what = std::string("killed by signal ") + std::to_string(WTERMSIG(st));
            else if (WEXITSTATUS(st) == 3) { fprintf(stderr, "job %s: cannot write\n", js[r.idx].name.c_str()); return 3; }
            else if (WEXITSTATUS(st) != 0) what = std::string("exit status ") + std::to_string(WEXITSTATUS(st));
            if (!what.empty()) {
                // keep the complete lines that reached the file, then record what happened
                std::string f = fname(r.idx), txt;
                if (FILE* in = fopen(f.c_str(), "r")) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, in)) > 0) txt.append(b, n); fclose(in); }
                size_t e = txt.rfind('\n');
                txt = e == std::string::npos ? "" : txt.substr(0, e + 1);
                if (txt.empty()) txt = Ev("job").f("name", js[r.idx].name).str() + "\n";
                txt += Ev("crash").f("what", what).str() + "\n";
                if (FILE* o = fopen(f.c_str(), "w")) { fwrite(txt.data(), 1, txt.size(), o); fclose(o); }
            }
            fprintf(summary, "%06zu %.2f %s%s%s\n", r.idx, now() - r.start, js[r.idx].name.c_str(), what.empty() ? "" : "  CRASH ", what.c_str());
            break;
        }
    }
    fclose(summary);
    return 0;
}
