// Replay / bounded-search harness: runs executable versions of the contracts against the real classes.
#pragma once
#include <config.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <chrono>
#include <functional>
#include <iostream>
#include <set>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <complex>
#include <cmath>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
namespace nat {
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t x=1) : s(x*0x9E3779B97F4A7C15ull+0x1234567) { next(); next(); }
  std::uint64_t next() { s ^= s<<13; s ^= s>>7; s ^= s<<17; return s*0x2545F4914F6CDD1Dull; }
  long in(long a, long b) { return a + long((next()>>20) % std::uint64_t(b-a+1)); }      // inclusive
  bool chance(int pct) { return in(0,99) < pct; }
  double small() { return double(in(-4,4)); }
  double nz() { double v = 0; while (v==0) v = small(); return v; }
  double dyad() { return in(-64,64)/16.0; }
};
struct Fail { std::string msg; };
template<class... A> [[noreturn]] void fail(const A&... a) { std::ostringstream s; s.precision(17); (s << ... << a); throw Fail{s.str()}; }
#define CHECK(c, ...) do { if (!(c)) ::nat::fail(#c, " | ", __VA_ARGS__); } while(0)
struct Case { Rng rng; std::uint64_t seed; std::uint64_t no; std::ostringstream desc; std::string sig; Case(std::uint64_t sd, std::uint64_t n) : rng(sd), seed(sd), no(n) {} };
struct Section { std::string name; std::function<void(Case&)> f; int weight; std::uint64_t maxcases; };
inline std::vector<Section>& sections() { static std::vector<Section> s; return s; }
inline void section(const std::string& n, std::function<void(Case&)> f, int weight=1, std::uint64_t maxcases=~0ull) { sections().push_back({n,f,weight,maxcases}); }
inline int progressFd = -1;
inline void progress(const std::string& s) { if (progressFd<0) return; std::string t = s; t.resize(200,' '); t += '\n'; if (pwrite(progressFd,t.data(),t.size(),0)<0) {} }
inline void onalarm(int) { const char m[] = "HANG\n"; if (write(1,m,sizeof(m)-1)<0) {} _exit(97); }
inline std::uint64_t hash(const std::string& s, std::uint64_t h=1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline void limit(int sec) { itimerval t{}; t.it_value.tv_sec = sec; setitimer(ITIMER_PROF,&t,nullptr); }
// several processes running the same cases in step (native/c18.cc)
struct Hooks { int rank = 0; std::function<double(double)> clock; std::function<void()> abort; };
inline Hooks& hooks() { static Hooks h; return h; }
inline int run(int argc, char** argv) {
  std::uint64_t seed = 1; double budget = 5; std::string only, prog; std::uint64_t no = 0; bool one = false; int cpu = 60;
  for (int i=1;i+1<argc;i+=2) { std::string k=argv[i], v=argv[i+1];
    if (k=="--seed") seed = std::strtoull(v.c_str(),0,10); if (k=="--budget") budget = std::atof(v.c_str());
    if (k=="--progress") prog = v; if (k=="--case") { auto p = v.rfind(':'); only = v.substr(0,p); no = std::strtoull(v.substr(p+1).c_str(),0,10); one = true; }
    if (k=="--cpu") cpu = std::atoi(v.c_str()); }
  if (!prog.empty() && hooks().rank==0) progressFd = ::open(prog.c_str(), O_CREAT|O_WRONLY|O_TRUNC, 0644);
  signal(SIGPROF, onalarm);
  auto t0 = std::chrono::steady_clock::now();
  auto el = [&]{ double t = std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); return hooks().clock ? hooks().clock(t) : t; };
  auto give = [&](const std::string& s) { std::cout << s << std::endl; if (hooks().abort) hooks().abort(); return false; };
  std::uint64_t total = 0; std::set<std::uint64_t> sigs; std::map<std::string,std::uint64_t> per; std::map<std::string,std::string> sample;
  auto exec = [&](Section& s, std::uint64_t i) -> bool {
    Case c(hash(s.name, 1469598103934665603ull ^ (seed*7919)) + i*0x9E3779B97F4A7C15ull, i);
    std::string id = s.name + ":" + std::to_string(i);
    progress(id); limit(cpu);
    try { s.f(c); }
    catch (Fail& f) { return give("FAILCASE " + id + "\nFAILMSG " + f.msg + "\nFAILDESC " + c.desc.str()); }
    catch (std::exception& e) { return give("FAILCASE " + id + "\nFAILMSG unexpected exception: " + e.what() + "\nFAILDESC " + c.desc.str()); }
    catch (...) { return give("FAILCASE " + id + "\nFAILMSG unexpected exception\nFAILDESC " + c.desc.str()); }
    ++total; ++per[s.name];
    std::string sg = c.sig.empty() ? c.desc.str() : c.sig; if (!sg.empty()) sigs.insert(hash(s.name + "#" + sg));
    if (!sample.count(s.name) && !c.desc.str().empty() && i>=2) sample[s.name] = c.desc.str().substr(0,300);
    return true; };
  if (one) { for (auto& s : sections()) if (s.name==only) { bool ok = exec(s,no); if (hooks().rank==0) std::cout << (ok ? "REPLAY-PASS" : "REPLAY-FAIL") << std::endl; return ok ? 0 : 1; } std::cout << "no such section\n"; return 2; }
  std::map<std::string,std::uint64_t> nexti;
  bool any = true;
  while (any && el() < budget) { any = false;
    for (auto& s : sections()) for (int w=0; w<s.weight && nexti[s.name] < s.maxcases && el() < budget; ++w) { any = true; if (!exec(s, nexti[s.name]++)) return 1; } }
  // every section at least a few times, whatever the budget
  for (auto& s : sections()) while (per[s.name] < 20 && nexti[s.name] < s.maxcases) if (!exec(s, nexti[s.name]++)) return 1;
  limit(0); progress("done"); if (hooks().rank) return 0;
  std::cout << "TOTAL " << total << " DISTINCT " << sigs.size() << std::endl;
  for (auto& p : per) std::cout << "SECTION " << p.first << " " << p.second << std::endl;
  for (auto& p : sample) std::cout << "SAMPLE " << p.first << ": " << p.second << std::endl;
  return 0;
}
}
#define NATIVE_MAIN int main(int argc, char** argv) { register_sections(); return nat::run(argc, argv); }
