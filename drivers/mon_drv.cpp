// C24: the memory monitor.  Histories of MonitorMC are replayed; the written log is read back.
#include "tr.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/memory_management.hpp>
#include <fstream>
#include <sstream>
#include <thread>
#include <chrono>
#include <memory>
using namespace sdsl;
typedef uint64_t u64;
typedef memory_monitor::timer clk;
typedef std::vector<std::vector<long>> Hist;
static std::vector<Hist> hists()
{
    std::vector<Hist> h;
    std::ifstream in(tr::inputs);
    std::string l;
    while (std::getline(in, l)) {
        Hist x; std::vector<long> cur; int depth = 0;
        for (size_t i = 0; i < l.size(); ++i) {
            if (l.compare(i, 2, "<<") == 0) { ++depth; ++i; cur.clear(); }
            else if (l.compare(i, 2, ">>") == 0) { if (depth == 2) x.push_back(cur); --depth; ++i; }
            else if (isdigit(l[i])) { long v = 0; while (i < l.size() && isdigit(l[i])) v = 10 * v + (l[i++] - '0'); --i; cur.push_back(v); }
        }
        h.push_back(x);
    }
    return h;
}
// [{"name" : "..", "usage" : [[t,u],..]}, ..]  ->  [[name,[[t,u],..]],..]
struct P {
    const std::string& s; size_t p; bool ok = true;
    P(const std::string& x, size_t at) : s(x), p(at) {}
    void ws() { while (p < s.size() && isspace((unsigned char)s[p])) ++p; }
    bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { ++p; return true; } return false; }
    void need(char c) { if (!eat(c)) ok = false; }
    std::string str() { std::string r; need('"'); while (ok && p < s.size() && s[p] != '"') r += s[p++]; if (p >= s.size()) ok = false; ++p; return r; }
    long num() { ws(); char* e; long v = strtol(s.c_str() + p, &e, 10); if (e == s.c_str() + p) ok = false; p = e - s.c_str(); return v; }
    std::string all() {
        std::string r = "[";
        need('[');
        ws();
        if (ok && p < s.size() && s[p] != ']') do {
            need('{');
            if (str() != "name") ok = false;
            need(':');
            std::string nm = str();
            need(',');
            if (str() != "usage") ok = false;
            need(':');
            need('[');
            if (r.size() > 1) r += ",";
            r += "[" + tr::jv(nm) + ",[";
            bool f = true;
            if (!eat(']')) { do { need('['); long t = num(); need(','); long u = num(); need(']'); if (!f) r += ","; f = false; r += "[" + tr::jv(t) + "," + tr::jv(u) + "]"; } while (ok && eat(',')); need(']'); }
            need('}');
            r += "]]";
        } while (ok && eat(','));
        need(']');
        return r + "]";
    }
};
static tr::J parsed(const std::string& s, size_t from, const std::string& stop)
{
    P q(s, from);
    std::string r = q.all();
    q.ws();
    if (!q.ok || s.compare(q.p, stop.size(), stop) != 0 || (stop.empty() && q.p != s.size())) return tr::J{"[[\"unreadable\",[]]]"};
    return tr::J{r};
}
static clk::time_point t0;
static long ms(clk::time_point t) { return (long)std::chrono::duration_cast<std::chrono::milliseconds>(t - t0).count(); }
static void log_ev(const char* when)
{
    std::ostringstream j, h;
    memory_monitor::write_memory_log<JSON_FORMAT>(j);
    memory_monitor::write_memory_log<HTML_FORMAT>(h);
    std::string hs = h.str();
    size_t p = hs.find("var events =");
    tr::emit(tr::Ev("log").f("when", when).f("peak", (long)memory_monitor::peak()).f("json", parsed(j.str(), 0, ""))
             .f("html", p == std::string::npos ? tr::J{"[[\"no record\",[]]]"} : parsed(hs, p + 12, ";")));
}
static void pause(long dt)
{
    auto t = clk::now();
    if (dt) std::this_thread::sleep_for(std::chrono::microseconds(1300));
    while (clk::now() - t < std::chrono::microseconds(2)) {}
}
static void run(const Hist& h, int mode)
{
    t0 = clk::now();
    memory_monitor::granularity(std::chrono::milliseconds(mode == 0 ? 0 : mode == 1 ? 1 : 3600000));
    tr::emit(tr::Ev("run").f("mode", mode));
    typedef memory_monitor::mm_event_proxy proxy;
    std::vector<proxy*> open, left;
    std::vector<std::unique_ptr<int_vector<64>>> vecs;
    bool on = false;
    int n = 0, k = 0;
    for (auto& o : h) {
        pause(o[2]);
        long lo = ms(clk::now());
        const char* nm = "";
        long delta = 0;
        switch (o[0]) {
            case 1: nm = "start"; memory_monitor::start(); on = true; n = 0; break;
            case 2: ++n; nm = "begin"; open.push_back(new proxy(memory_monitor::event("e" + std::to_string(n)))); break;
            case 3: nm = "end"; delete open.back(); open.pop_back(); break;
            case 4: {
                delta = o[1] - 1000;
                nm = "change";
                if (++k % 3) memory_monitor::record(delta);
                else if (delta > 0) vecs.emplace_back(new int_vector<64>(delta / 8));
                else { delta = vecs.empty() ? 0 : -(long)vecs.back()->size() * 8; if (!vecs.empty()) vecs.pop_back(); }
                break;
            }
            case 5: nm = "stop"; memory_monitor::stop(); on = false; left.insert(left.end(), open.begin(), open.end()); open.clear(); break;
            case 6: nm = "late"; delete left.back(); left.pop_back(); break;
        }
        long hi = ms(clk::now());
        tr::emit(tr::Ev(nm).f("o", o).f("d", delta).f("lo", lo).f("hi", hi));
        if (o[0] == 5 || (o[0] == 3 && hi % 5 == 0) || o[0] == 6) log_ev(on ? "open" : "stop");
    }
    if (on) { long lo = ms(clk::now()); memory_monitor::stop(); tr::emit(tr::Ev("stop").f("d", 0).f("lo", lo).f("hi", ms(clk::now()))); log_ev("stop"); }
    while (!open.empty()) { delete open.back(); open.pop_back(); }
    while (!left.empty()) { delete left.back(); left.pop_back(); }
    log_ev("stop");
}
static void threads(int mode)
{
    t0 = clk::now();
    memory_monitor::granularity(std::chrono::milliseconds(mode == 0 ? 0 : 3600000));
    memory_monitor::start();
    long total = 0;
    {
        auto ev = memory_monitor::event("e1");
        std::vector<std::thread> ts;
        for (int i = 1; i <= 4; ++i) { total += 8L * i * 3000; ts.emplace_back([i] { for (int z = 0; z < 3000; ++z) memory_monitor::record(8 * i); }); }
        for (auto& t : ts) t.join();
    }
    memory_monitor::stop();
    std::ostringstream j;
    memory_monitor::write_memory_log<JSON_FORMAT>(j);
    std::string s = j.str();
    P q(s, 0);
    std::string all = q.all();
    size_t a = all.find("[\"e1\",["), b = a == std::string::npos ? a : all.find("]]]", a);
    long last = -1;     // the last usage of event e1
    if (b != std::string::npos) last = atol(all.c_str() + all.rfind(',', b) + 1);
    tr::emit(tr::Ev("threads").f("total", total).f("last", last).f("peak", (long)memory_monitor::peak()));
}
static void reg()
{
    auto hs = hists();
    for (int mode = 0; mode < 3; ++mode)
        for (size_t i = 0; i < hs.size(); i += 10)
            tr::job("monitor/" + std::to_string(mode) + "/" + std::to_string(i), [=] { for (size_t k = i; k < std::min(i + 10, hs.size()); ++k) run(hs[k], mode); }, 120);
    for (int mode = 0; mode < 2; ++mode) tr::job("threads/" + std::to_string(mode), [=] { for (int z = 0; z < 3; ++z) threads(mode); }, 120);
}
TR_REGISTER(reg);
