#include <sys/resource.h>
// C09: histories of the library's file and stream operations, on disk and in RAM.
#include "tr.hpp"
#include <sdsl/ram_fs.hpp>
#include <sdsl/sfstream.hpp>
#include <sdsl/io.hpp>
#include <sdsl/util.hpp>
#include <sdsl/int_vector.hpp>
#include <thread>
#include <memory>
using namespace tr;
using namespace sdsl;
typedef std::vector<int> Bytes;

static Bytes bytes(const std::string& s) { Bytes b; for (unsigned char c : s) b.push_back(c); return b; }
struct H {
    static const int F = 5, S = 4;
    Rng g;
    std::string prefix;
    std::vector<std::string>& log;
    std::unique_ptr<osfstream> o[S];     // streams 0,1 write, 2,3 read
    std::unique_ptr<isfstream> in[S];
    // bookkeeping that keeps the history inside the documented use
    int file[S];                         // file an open stream works on, -1 none
    bool bad[S];                         // last open failed: the stream has no buffer
    bool stale[S];                       // the file changed under the reader
    bool unflushed[S], app[S], told[S];
    H(uint64_t s, const std::string& p, std::vector<std::string>& lg) : g(s), prefix(p), log(lg) {
        for (int i = 0; i < S; ++i) { file[i] = -1; bad[i] = true; stale[i] = unflushed[i] = app[i] = told[i] = false; }
        for (int i = 0; i < 2; ++i) o[i].reset(new osfstream());
        for (int i = 2; i < S; ++i) in[i].reset(new isfstream());
    }
    void ev(const Ev& e) { log.push_back(e.str()); }
    std::string nm(int f) { return prefix + jv(f); }
    bool busy(int f) { for (int i = 0; i < S; ++i) if (file[i] == f) return true; return false; }
    void changed(int f) { for (int i = 2; i < S; ++i) if (file[i] == f) stale[i] = true; }
    void sync(int f) { for (int i = 0; i < 2; ++i) if (file[i] == f && unflushed[i]) { o[i]->flush(); unflushed[i] = false; } }
    void openw(int s, int f, int mode) {
        // 0 out, 1 out|trunc, 2 app, 3 out|app, 4 in|out, 5 in|out|trunc, 6 in|out|app; +8 ate
        int m = mode & 7;
        std::ios_base::openmode om = std::ios::binary;
        if (m != 2) om |= std::ios::out;
        if (m >= 4) om |= std::ios::in;
        if (m == 1 || m == 5) om |= std::ios::trunc;
        if (m == 2 || m == 3 || m == 6) om |= std::ios::app;
        if (mode & 8) om |= std::ios::ate;
        sync(f); if (file[s] >= 0) sync(file[s]);
        bool ok = o[s]->open(nm(f), om) != nullptr && o[s]->good();
        file[s] = ok ? f : -1; bad[s] = !ok; unflushed[s] = false; app[s] = m == 2 || m == 3 || m == 6; told[s] = !app[s];
        ev(Ev("openw").f("s", s).f("f", f).f("in", m >= 4).f("trunc", m == 1 || m == 5).f("app", app[s]).f("ate", (mode & 8) != 0).f("res", ok));
        changed(f);
    }
    void openr(int s, int f, bool ate) {
        sync(f);
        std::ios_base::openmode om = std::ios::in | std::ios::binary;
        if (ate) om |= std::ios::ate;
        bool ok = in[s]->open(nm(f), om) != nullptr && in[s]->good();
        file[s] = ok ? f : -1; bad[s] = !ok; stale[s] = false;
        ev(Ev("openr").f("s", s).f("f", f).f("ate", ate).f("res", ok));
    }
    void write(int s, const std::string& x, int how) {
        if (how == 1 && x.size() == 1) o[s]->put(x[0]);
        else if (how == 2) *o[s] << x;
        else o[s]->write(x.data(), x.size());
        bool fl = g.chance(1, 2) || o[s]->fail() || !file_open(s);
        if (fl) o[s]->flush(); else unflushed[s] = true;
        if (app[s] && fl) told[s] = true;
        if (file[s] >= 0) changed(file[s]);
        ev(Ev("write").f("s", s).f("b", bytes(x)).f("res", !o[s]->fail()));
    }
    bool file_open(int s) { return file[s] >= 0; }
    void read(int s, int n, int how) {
        if (stale[s]) return;
        if (file[s] >= 0) sync(file[s]);
        std::string b;
        if (how == 1) { for (int i = 0; i < n; ++i) { char c; if (!in[s]->get(c)) break; b += c; } }
        else { b.resize(n); in[s]->read(&b[0], n); b.resize(in[s]->gcount()); }
        ev(Ev("read").f("s", s).f("n", n).f("b", bytes(b)).f("res", !in[s]->fail()));
    }
    void seek(int s, long off, int way, bool base) {
        static const std::ios_base::seekdir W[3] = {std::ios::beg, std::ios::cur, std::ios::end};
        if (file[s] >= 0) sync(file[s]);
        if (stale[s] && way == 1) way = 0;
        if (app[s] && way == 1) { if (!told[s]) return; }
        bool ok;
        if (s < 2) {
            if (way == 0 && (off & 1)) { if (base) ((std::ostream&)*o[s]).seekp(off); else o[s]->seekp(std::streampos(off)); }
            else if (base) ((std::ostream&)*o[s]).seekp(off, W[way]); else o[s]->seekp(off, W[way]);
            ok = !o[s]->fail();
            if (app[s]) told[s] = false;
        } else {
            if (way == 0 && (off & 1)) { if (base) ((std::istream&)*in[s]).seekg(off); else in[s]->seekg(std::streampos(off)); }
            else if (base) ((std::istream&)*in[s]).seekg(off, W[way]); else in[s]->seekg(off, W[way]);
            ok = !in[s]->fail();
            if (ok) stale[s] = false;
        }
        ev(Ev("seek").f("s", s).f("off", off).f("way", way).f("res", ok));
    }
    void tell(int s, bool base) {
        if (stale[s] || (app[s] && (!told[s] || unflushed[s]))) return;
        long p = s < 2 ? (base ? (long)((std::ostream&)*o[s]).tellp() : (long)o[s]->tellp()) : (base ? (long)((std::istream&)*in[s]).tellg() : (long)in[s]->tellg());
        ev(Ev("tell").f("s", s).f("res", p));
    }
    void clear(int s) { if (bad[s]) return; if (s < 2) o[s]->clear(); else in[s]->clear(); ev(Ev("clear").f("s", s)); }
    void isopen(int s) { ev(Ev("isopen").f("s", s).f("res", s < 2 ? o[s]->is_open() : in[s]->is_open())); }
    void close(int s) {
        if (s < 2) o[s]->close(); else in[s]->close();
        file[s] = -1; stale[s] = false; unflushed[s] = false; app[s] = false;
        ev(Ev("close").f("s", s).f("res", s < 2 ? !o[s]->fail() : !in[s]->fail()));
    }
    void exists(int f) {
        std::vector<int> r;
        { isfstream x(nm(f)); r.push_back(x.is_open()); r.push_back((bool)x); }
        if (is_ram_file(nm(f))) r.push_back(ram_fs::exists(nm(f)));
        ev(Ev("exists").f("f", f).f("res", r));
    }
    void size(int f) { sync(f); ev(Ev("size").f("f", f).f("res", util::file_size(nm(f)))); }
    void whole(int f) {
        sync(f);
        std::string b; isfstream x(nm(f)); bool ok = x.is_open(); char c;
        while (ok && x.get(c)) b += c;
        ev(Ev("whole").f("f", f).f("ok", ok).f("b", bytes(b)));
    }
    void remove(int f) { if (busy(f)) return; ev(Ev("remove").f("f", f).f("res", sdsl::remove(nm(f)) == 0)); }
    void rename(int f, int h) { if (busy(f) || busy(h)) return; ev(Ev("rename").f("f", f).f("g", h).f("res", sdsl::rename(nm(f), nm(h)) == 0)); }
    void cross(int f) {   // between RAM and disk
        if (busy(f)) return;
        std::string other = is_ram_file(nm(f)) ? scratch + "/cross" : "@cross";
        ev(Ev("cross").f("f", f).f("res", sdsl::rename(nm(f), other) == 0));
    }
    void names(const std::string& n) {
        ev(Ev("names").f("n", bytes(n)).f("isram", is_ram_file(n)).f("ram", bytes(ram_file_name(n))).f("disk", bytes(disk_file_name(n))));
    }
    void store(int f, const std::string& x, int how) {
        for (int i = 0; i < 2; ++i) if (file[i] == f) return;
        bool ok;
        if (how == 0) ok = store_to_file(x, nm(f));
        else if (how == 1) { std::vector<uint8_t> v(x.begin(), x.end()); ok = store_to_plain_array<uint8_t>(v, nm(f)); }
        else { std::string y; for (char c : x) if (c) y += c; ok = store_to_file(y.c_str(), nm(f)); changed(f); ev(Ev("store").f("f", f).f("b", bytes(y)).f("res", ok)); return; }
        changed(f);
        ev(Ev("store").f("f", f).f("b", bytes(x)).f("res", ok));
    }
    void load(int f) {
        sync(f);
        std::string b; bool ok;
        if (g.chance(1, 2)) { int_vector<8> v; ok = load_vector_from_file(v, nm(f), 1); if (ok) for (auto x : v) b += (char)x; }
        else { int_vector<> v; ok = load_vector_from_file(v, nm(f), 1); if (ok) for (auto x : v) b += (char)x; }
        ev(Ev("load").f("f", f).f("res", ok).f("b", bytes(b)));
    }
    std::string data() {
        int n = g.chance(1, 6) ? g.below(60) : g.below(5);
        std::string x;
        for (int i = 0; i < n; ++i) x += g.chance(1, 8) ? (char)g.next() : (char)('a' + g.below(26));
        return x;
    }
    void step() {
        int s = g.below(S), f = g.below(F);
        switch (g.below(26)) {
            case 0: case 1: {
                if (s < 2) { for (int i = 0; i < 2; ++i) if (i != s && file[i] == f) return; openw(s, f, g.below(7) + (g.chance(1, 3) ? 8 : 0)); }
                else openr(s, f, g.chance(1, 4));
                break;
            }
            case 2: case 3: case 4: case 5: case 6: { int w = g.below(2); if (!bad[w]) { std::string x = data(); if (g.chance(1, 3)) x = x.substr(0, 1); write(w, x, g.below(3)); } break; }
            case 7: case 8: case 9: case 10: { int r = 2 + g.below(2); if (!bad[r]) read(r, 1 + g.below(12), g.below(2)); break; }
            case 11: case 12: case 13: case 14: seek(s, g.chance(1, 12) ? -(long)g.below(9) : (long)g.below(30), g.below(3), !bad[s] && g.chance(1, 3)); if (stale[s] && file[s] >= 0) { clear(s); seek(s, g.below(20), 0, false); } break;
            case 15: case 16: tell(s, !bad[s] && g.chance(1, 3)); break;
            case 17: clear(s); break;
            case 18: isopen(s); break;
            case 19: if (g.chance(1, 2)) close(s); break;
            case 20: exists(f); break;
            case 21: size(f); break;
            case 22: whole(f); break;
            case 23: if (g.chance(1, 2)) remove(f); else rename(f, g.below(F)); break;
            case 24: if (g.chance(1, 2)) store(f, data(), g.below(3)); else load(f); break;
            case 25: if (g.chance(1, 4)) cross(f); else names(g.chance(1, 3) ? nm(f) : g.chance(1, 2) ? std::string(g.below(3), '@') + data() : data()); break;
        }
    }
    void finish() {
        for (int i = 0; i < S; ++i) if (file[i] >= 0) close(i);
        for (int f = 0; f < F; ++f) { whole(f); size(f); remove(f); }
    }
};
static void dump(const std::vector<std::string>& lg) { for (auto& x : lg) { std::string t = x + "\n"; fwrite(t.data(), 1, t.size(), tr::out); } }
static void hist(uint64_t s, bool ram, int steps) {
    std::vector<std::string> lg;
    std::string p = ram ? "@f" : scratch + "/f";
    H h(s, p, lg);
    for (int i = 0; i < steps; ++i) { h.step(); dump(lg); lg.clear(); fflush(tr::out); }
    h.finish();
    dump(lg);
}
// threads, each on names of its own; every thread's history must be sequential
static void threads(uint64_t s, int n, int steps) {
    std::vector<std::vector<std::string>> lg(n);
    std::vector<std::thread> th;
    for (int t = 0; t < n; ++t)
        th.emplace_back([&, t] { H h(s + t, "@t" + jv(t) + "-", lg[t]); for (int i = 0; i < steps; ++i) h.step(); h.finish(); });
    for (auto& x : th) x.join();
    for (int t = 0; t < n; ++t) { emit(Ev("thread").f("t", t)); dump(lg[t]); }
}
static void churn(uint64_t s, int n, int steps) {   // mostly creation, renaming and removal of names
    std::vector<std::vector<std::string>> lg(n);
    std::vector<std::thread> th;
    for (int t = 0; t < n; ++t)
        th.emplace_back([&, t] {
            H h(s + t, "@c" + jv(t) + "-", lg[t]);
            for (int i = 0; i < steps; ++i) {
                int f = h.g.below(H::F);
                switch (h.g.below(6)) {
                    case 0: case 1: h.store(f, h.data(), 0); break;
                    case 2: h.remove(f); break;
                    case 3: h.rename(f, h.g.below(H::F)); break;
                    case 4: h.size(f); break;
                    case 5: h.whole(f); break;
                }
            }
            h.finish();
        });
    for (auto& x : th) x.join();
    for (int t = 0; t < n; ++t) { emit(Ev("thread").f("t", t)); dump(lg[t]); }
}
// behaviours generated by TLC from FileMC: <<op, a, b, c>> on one file, one writer, one reader
static void replay(const std::vector<std::vector<long>>& ops, bool ram) {
    std::vector<std::string> lg;
    H h(1, ram ? "@g" : scratch + "/g", lg);
    for (auto& o : ops) {
        switch (o[0]) {
            case 0: h.openw(0, 0, o[1] + (o[2] ? 8 : 0)); break;
            case 1: { std::string x; for (int i = 0; i < o[1]; ++i) x += (char)('0' + o[2]); if (!h.bad[0]) h.write(0, x, 0); break; }
            case 2: if (!h.bad[0]) h.seek(0, o[1], o[2], o[1] & 2); break;
            case 3: if (!h.bad[0]) h.tell(0, false); break;
            case 4: h.close(0); break;
            case 5: h.openr(2, 0, o[1]); break;
            case 6: if (!h.bad[2]) { if (h.stale[2]) h.seek(2, 0, 0, false); h.read(2, o[1], 0); } break;
            case 7: if (!h.bad[2]) h.seek(2, o[1], o[2], o[1] & 2); break;
            case 8: if (!h.bad[2]) { h.clear(2); h.tell(2, false); } break;
            case 9: h.close(2); break;
            case 10: h.remove(0); break;
        }
        h.size(0); h.whole(0);
    }
    h.finish();
    dump(lg);
}
static std::vector<std::vector<std::vector<long>>> behaviours() {
    std::vector<std::vector<std::vector<long>>> all;
    if (inputs.empty()) return all;
    FILE* f = fopen(inputs.c_str(), "r");
    std::string s; int ch;
    auto flush = [&] {
        std::vector<std::vector<long>> ops; std::vector<long> cur; bool num = false, neg = false; long x = 0;
        for (size_t i = 0; i <= s.size(); ++i) {
            char c = i < s.size() ? s[i] : '>';
            if (c >= '0' && c <= '9') { x = (num ? x * 10 : 0) + (c - '0'); num = true; continue; }
            if (num) { cur.push_back(neg ? -x : x); num = false; neg = false; }
            if (c == '-') neg = true;
            if (c == '>' && !cur.empty()) { ops.push_back(cur); cur.clear(); }
        }
        all.push_back(ops); s.clear();
    };
    while ((ch = fgetc(f)) != EOF) { if (ch == '\n') flush(); else s += (char)ch; }
    fclose(f);
    return all;
}
// files of more than 2^31 bytes (2^32 on disk)
static std::string pr(uint64_t x) { return "[" + std::to_string(x >> 24) + "," + std::to_string(x & 0xffffff) + "]"; }
static void huge(uint64_t s, bool ram, uint64_t at) {
    rlimit as = {20ULL << 30, 24ULL << 30};
    setrlimit(RLIMIT_AS, &as);
    tr::Rng g(s);
    std::string f = ram ? "@huge" : scratch + "/huge";
    typedef std::ios_base io;
    uint64_t size = 0, pos = 0;
    std::unique_ptr<osfstream> o; std::unique_ptr<isfstream> in;
    auto open = [&](int mode) {
        static const io::openmode M[6] = {io::out, io::in | io::out, io::out | io::app, io::in | io::out | io::ate, io::in, io::in | io::ate};
        bool ok;
        if (mode < 4) { o.reset(new osfstream(f, M[mode] | io::binary)); ok = o->is_open() && *o; } else { in.reset(new isfstream(f, M[mode] | io::binary)); ok = in->is_open() && *in; }
        emit(Ev("hopen").f("mode", mode).f("res", ok));
        if (mode == 0) size = 0;
        pos = mode == 2 || mode == 3 || mode == 5 ? size : 0;
    };
    auto close = [&](bool wr) { if (wr) { o->close(); emit(Ev("hclose").f("res", (bool)*o)); o.reset(); } else { in->close(); emit(Ev("hclose").f("res", (bool)*in)); in.reset(); } };
    auto write = [&](int n, bool app = false) {
        std::vector<int> b; std::string t;
        for (int i = 0; i < n; ++i) { b.push_back(1 + g.below(255)); t += (char)b.back(); }
        o->write(t.data(), t.size());
        emit(Ev("hwrite").f("b", b).f("res", (bool)*o));
        if (app) pos = size;
        pos += n; size = std::max(size, pos);
    };
    auto seek = [&](bool wr, int64_t off, int way) {
        auto d = way == 0 ? io::beg : way == 1 ? io::cur : io::end;
        bool ok;
        if (wr) { o->seekp(off, d); ok = (bool)*o; o->clear(); } else { in->clear(); in->seekg(off, d); ok = (bool)*in; in->clear(); }
        emit(Ev("hseek").f("off", J{pr(off < 0 ? -off : off)}).f("neg", off < 0).f("way", way).f("res", ok));
        int64_t t = off + (way == 0 ? 0 : way == 1 ? (int64_t)pos : (int64_t)size);
        if (t >= 0) pos = t;
    };
    auto tell = [&](bool wr) { int64_t p = wr ? (int64_t)o->tellp() : (int64_t)in->tellg(); emit(Ev("htell").f("res", J{p < 0 ? std::string("[-1,-1]") : pr(p)})); };
    auto read = [&](int n) {
        std::string t(n, 0); std::vector<int> b;
        in->read(&t[0], n);
        for (int i = 0; i < in->gcount(); ++i) b.push_back((unsigned char)t[i]);
        in->clear();
        emit(Ev("hread").f("n", n).f("b", b));
        pos += b.size();
    };
    auto check = [&] {
        emit(Ev("hsize").f("res", J{pr(util::file_size(f))}));
        open(4);
        for (uint64_t p : {0ULL, 1ULL << 31, (unsigned long long)at, (unsigned long long)size - 9}) for (int d : {-7, 0}) { if ((int64_t)p + d < 0) continue; seek(false, p + d, 0); read(1 + g.below(15)); tell(false); }
        seek(false, -(int64_t)g.below(12), 2); tell(false); read(9); tell(false);
        seek(false, -(int64_t)(size - 3), 1); tell(false); read(5); seek(false, at - 12, 1); tell(false); read(20); tell(false);
        seek(false, -(int64_t)size - 1, 2); tell(false); seek(false, -(int64_t)size, 2); read(2); seek(false, size, 0); read(1);
        close(false);
        open(5); tell(false); seek(false, -5, 1); read(10); close(false);
    };
    open(0); write(12); seek(true, at - 5, 0); tell(true); write(4); tell(true); write(9); tell(true); seek(true, -7, 1); tell(true); write(2); tell(true);
    seek(true, 40, 2); tell(true); write(3); tell(true); seek(true, -(int64_t)(size - 4), 2); tell(true); write(5); tell(true); seek(true, at + 3, 1); tell(true); write(2); tell(true); close(true);
    check();
    open(1); tell(true); write(2); seek(true, at + 1, 0); write(30); tell(true); seek(true, 5, 1); tell(true); write(6); tell(true); close(true);
    check();
    open(3); tell(true); write(4); tell(true); seek(true, -60, 1); write(5); tell(true); close(true);
    open(2); write(7, true); tell(true); write(3, true); tell(true); close(true);
    check();
    if (ram) ram_fs::remove(f); else remove(f.c_str());
}
static void reg() {
#ifndef ONLY_THREADS
    job("huge-ram", [] { huge(seed * 3, true, 1ULL << 31); }, 120);
    job("huge-disk31", [] { huge(seed * 3, false, 1ULL << 31); });
    job("huge-disk32", [] { huge(seed * 3 + 1, false, 1ULL << 32); });
    job("huge-disk40", [] { huge(seed * 3 + 2, false, 1ULL << 40); });
    int m = thorough ? 8 : 1;
    for (int k = 0; k < 24 * m; ++k) {
        uint64_t s = seed * 1000 + k;
        job("ram-" + jv(k), [=] { hist(s, true, 300); });
        job("disk-" + jv(k), [=] { hist(s, false, 300); });
    }
    int i = 0;
    for (auto& o : behaviours()) { job("gen-ram-" + jv(i), [=] { replay(o, true); }); job("gen-disk-" + jv(i), [=] { replay(o, false); }); ++i; }
#endif
    for (int k = 0; k < (thorough ? 24 : 4); ++k) {
        uint64_t s = seed * 5000 + k * 100;
        job("thr-" + jv(k), [=] { threads(s, 4, 250); }, 120);
        job("churn-" + jv(k), [=] { churn(s, 6, 400); }, 120);
    }
}
TR_REGISTER(reg);
