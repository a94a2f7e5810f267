// Records every name handed to the in-RAM file system (linked with --wrap, see checks.py).
#include <sdsl/ram_fs.hpp>
#include <set>
#include <string>
#include <mutex>
#include <vector>
static std::mutex mx;
std::set<std::string>& ram_names() { static std::set<std::string> s; return s; }
static void note(const std::string& n) { std::lock_guard<std::mutex> g(mx); ram_names().insert(n); }
#define STORE "_ZN4sdsl6ram_fs5storeERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESt6vectorIcSaIcEE"
#define CONTENT "_ZN4sdsl6ram_fs7contentERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
#define RENAME "_ZN4sdsl6ram_fs6renameENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES6_"
typedef std::vector<char> C;
void real_store(const std::string&, C) __asm__("__real_" STORE) __attribute__((weak));
void wrap_store(const std::string&, C) __asm__("__wrap_" STORE);
void wrap_store(const std::string& n, C c) { note(n); real_store(n, std::move(c)); }
C& real_content(const std::string&) __asm__("__real_" CONTENT) __attribute__((weak));
C& wrap_content(const std::string&) __asm__("__wrap_" CONTENT);
C& wrap_content(const std::string& n) { note(n); return real_content(n); }
int real_rename(std::string, std::string) __asm__("__real_" RENAME) __attribute__((weak));
int wrap_rename(std::string, std::string) __asm__("__wrap_" RENAME);
int wrap_rename(std::string a, std::string b) { note(b); return real_rename(a, b); }
