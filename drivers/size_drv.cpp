// C24: reported sizes and structure trees of the library's objects.
#if PART == 7
#define WITH_K2
#endif
#include "life_types.hpp"
#include <malloc.h>
#include <fstream>
#include <cmath>
using namespace life;
template<class T> T* fresh() { return new T(); }
template<> inline sorted_stack_support* fresh<sorted_stack_support>() { return new sorted_stack_support(0); }
template<> inline sorted_multi_stack_support* fresh<sorted_multi_stack_support>() { return new sorted_multi_stack_support(0); }
template<> inline sorted_int_stack* fresh<sorted_int_stack>() { return new sorted_int_stack(0); }
#if PART == 7
template<> inline louds_tree<>* fresh<louds_tree<>>() { return life::tiny<louds_tree<>>(); }
template<> inline louds_tree<rrr_vector<15>>* fresh<louds_tree<rrr_vector<15>>>() { return life::tiny<louds_tree<rrr_vector<15>>>(); }
#endif
// The written tree: {"class_name":..,"name":..,"size":"..","children":[..]}, read back as
// [class, name, size, [children]] with the children in canonical order.
struct Parser {
    const std::string& s; size_t p; bool ok = true; int depth = 0;
    Parser(const std::string& t, size_t at) : s(t), p(at) {}
    void ws() { while (p < s.size() && isspace((unsigned char)s[p])) ++p; }
    bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { ++p; return true; } return false; }
    void need(char c) { if (!eat(c)) ok = false; }
    std::string str() { std::string r; need('"'); while (ok && p < s.size() && s[p] != '"') r += s[p++]; if (p >= s.size()) ok = false; ++p; return r; }
    std::string node() {
        std::string cls, nm, sz; std::vector<std::string> ch;
        bool c = false, n = false, z = false;
        need('{');
        while (ok) {
            std::string k = str(); need(':'); if (!ok) break;
            if (k == "class_name" && !c) { cls = str(); c = true; }
            else if (k == "name" && !n) { nm = str(); n = true; }
            else if (k == "size" && !z) { sz = str(); z = true; if (sz.empty() || sz.size() > 9 || sz.find_first_not_of("0123456789") != std::string::npos) ok = false; }
            else if (k == "children") { need('['); do ch.push_back(node()); while (ok && eat(',')); need(']'); }
            else ok = false;
            if (!ok) break;
            if (eat(',')) continue;
            need('}');
            break;
        }
        if (!c || !n || !z) ok = false;
        if (!ok) return "";
        std::sort(ch.begin(), ch.end());
        std::string r = "[" + tr::jv(cls.substr(0, 40) + "#" + std::to_string(fnv(cls) % 1000000)) + "," + tr::jv(nm) + "," + sz + ",[";
        for (size_t i = 0; i < ch.size(); ++i) r += (i ? "," : "") + ch[i];
        return r + "]]";
    }
};
static tr::J forest(const std::string& s, size_t from, const std::string& stop)
{
    Parser q(s, from);
    std::vector<std::string> r;
    q.ws();
    while (q.ok && q.p < s.size() && s[q.p] == '{') { r.push_back(q.node()); q.ws(); }
    if (!q.ok || s.compare(q.p, stop.size(), stop) != 0 || (stop.empty() && q.p != s.size())) return tr::J{"[[\"unreadable\",\"\",-1,[]]]"};
    std::string o = "[";
    for (size_t i = 0; i < r.size(); ++i) o += (i ? "," : "") + r[i];
    return tr::J{o + "]"};
}
static tr::J of_json(const std::string& s) { return forest(s, 0, ""); }
static tr::J of_html(const std::string& s)
{
    size_t p = s.find("var spaceJSON =");
    if (p == std::string::npos) return tr::J{"[[\"no tree\",\"\",-1,[]]]"};
    return forest(s, p + 15, ";");
}
static std::string slurp(const std::string& f) { std::ifstream in(f, std::ios::binary); std::ostringstream o; o << in.rdbuf(); return o.str(); }
template<class T, class K> struct Size {
    template<class O> static void one(const O& t, int v, int round) {
        std::ostringstream o;
        u64 ret = sdsl::serialize(t, o);
        u64 len = o.str().size(), sib = size_in_bytes(t);
        double mb = size_in_mega_bytes(t);
        std::ostringstream j, h;
        write_structure<JSON_FORMAT>(t, j);
        write_structure<HTML_FORMAT>(t, h);
        std::string f = tr::scratch + "/tree";
        write_structure<JSON_FORMAT>(t, f);
        std::string fj = slurp(f);
        write_structure<HTML_FORMAT>(t, f);
        std::string fh = slurp(f);
        tr::emit(tr::Ev("size").f("v", v).f("round", round).f("len", len).f("ret", ret).f("sib", sib).f("mb", (long)std::llround(mb * 1048576.0))
                 .f("json", of_json(j.str())).f("html", of_html(h.str())).f("fjson", of_json(fj)).f("fhtml", of_html(fh)));
        std::remove(f.c_str());
    }
    static void all(const std::string& name) {
        tr::emit(tr::Ev("kind").f("name", name));
        std::vector<std::unique_ptr<T>> ts;
        std::vector<u64> lens;
        for (int v = 0; v <= 4; ++v) {
            mallopt(M_PERTURB, 17 + v);
            std::unique_ptr<T> t(fresh<T>());
            if (v) K::make(*t, v);
            one(*t, v, 1);
            std::ostringstream o;
            t->serialize(o);
            lens.push_back(o.str().size());
            ts.push_back(std::move(t));
        }
        { std::vector<T> w; one(w, 9, 2); for (int v : {2, 4, 3}) w.push_back(*ts[v]); one(w, 9, 3); }
        // several objects in one tree
        for (int z = 0; z < 3; ++z) {
            int a = z == 0 ? 3 : z == 1 ? 0 : 4, b = z == 0 ? 4 : z == 1 ? 2 : 4;
            int_vector<> iv(7 + 90 * z, 5, 3 + 11 * z);
            std::ostringstream j, h, io;
            write_structure<JSON_FORMAT>(j, *ts[a], iv, *ts[b]);
            write_structure<HTML_FORMAT>(h, *ts[a], iv, *ts[b]);
            iv.serialize(io);
            tr::emit(tr::Ev("many").f("lens", std::vector<u64>{lens[a], (u64)io.str().size(), lens[b]}).f("json", of_json(j.str())).f("html", of_html(h.str())));
        }
    }
};
template<class T, class K> void kind(const std::string& name) { tr::job(name, [=] { Size<T, K>::all(name); }, 240); }
#define K_(KIND, ...) kind<__VA_ARGS__, KIND<__VA_ARGS__>>(#__VA_ARGS__)
#define H_(KIND, ...) kind<KIND<__VA_ARGS__>::T, KIND<__VA_ARGS__>>(#KIND " " #__VA_ARGS__)
#define S_(...) kind<__VA_ARGS__, __VA_ARGS__>(#__VA_ARGS__)
#include "life_list.inc"
TR_REGISTER(reg);
