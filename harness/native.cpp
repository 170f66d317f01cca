// Native implementation of the harness interface: runs harnesses on recorded input vectors.
// usage: replay <file>; each line of the file: <harness> <hex> <hex> ...   (one line = one run, in a child process)
// output per line: <end> | <obs...> | <covers...>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static std::vector<unsigned long long> gIn;
static size_t gPos = 0;
static std::vector<unsigned long long> gObs;
static std::set<std::string> gCov;
static int gAllowAssert = 0, gAllowTerm = 0;

[[noreturn]] static void finish(std::string const & end)
{
  std::string r = end + " |";
  char b[32];
  for (auto o : gObs) {
    snprintf(b, sizeof b, " %llX", o);
    r += b;
  }
  r += " |";
  for (auto & c : gCov)
    r += " <" + c + ">";
  r += "\n";
  fflush(stdout);
  if (write(1, r.data(), r.size()) < 0) {
  }
  _exit(0);
}

static unsigned long long next()
{
  if (gPos >= gIn.size())
    finish("input-exhausted");
  return gIn[gPos++];
}

extern "C" {
unsigned long long vp_sym(unsigned bits, char const *)
{
  unsigned long long v = next();
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void vp_sym_bytes(void * p, unsigned long n, char const *)
{
  for (unsigned long i = 0; i < n; i += 8) {
    unsigned long k = n - i < 8 ? n - i : 8;
    unsigned long long v = next();
    memcpy((char *)p + i, &v, k);
  }
}
unsigned vp_choose(unsigned n, char const *)
{
  unsigned v = (unsigned)next();
  if (v >= n)
    finish("bad-choice");
  return v;
}
void vp_assume(int c)
{
  if (!c)
    finish("assume-violated");
}
void vp_assert(int c, char const * m)
{
  if (!c)
    finish(std::string("assert: ") + m);
}
void vp_cover(char const * l) { gCov.insert(l); }
void vp_obs(unsigned long long v) { gObs.push_back(v); }
int vp_symbolic(void) { return 0; }
void vp_allow_assert(int v) { gAllowAssert = v; }
void vp_allow_terminate(int v) { gAllowTerm = v; }
void * vp_page(unsigned long n)
{
  if (n > 65536)
    finish("bad-page");
  void * p = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED)
    finish("no-memory");
  return p;
}
void vp_seal(void * p, int on)
{
  if (mprotect(p, 65536, on ? PROT_READ : PROT_READ | PROT_WRITE) != 0)
    finish("no-seal");
}
void vp_end(void) { finish("return"); }
[[noreturn]] void __assert_fail(char const * a, char const *, unsigned, char const *) noexcept
{
  if (gAllowAssert) {
    gCov.insert("assert-fired");
    finish("assert");
  }
  finish(std::string("cassert: ") + a);
}
}

[[noreturn]] static void onTerminate()
{
  if (gAllowTerm) {
    gCov.insert("terminate-fired");
    finish("terminate");
  }
  finish("terminated: std::terminate called");
}

int main(int argc, char ** argv)
{
  if (argc < 2)
    return 2;
  std::ifstream f(argv[1]);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string h;
    is >> h;
    gIn.clear();
    std::string t;
    while (is >> t)
      gIn.push_back(strtoull(t.c_str(), nullptr, 16));
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      struct rlimit rl = {20, 20};
      setrlimit(RLIMIT_CPU, &rl);
      rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      std::set_terminate(onTerminate);
      auto fn = (void (*)())dlsym(RTLD_DEFAULT, h.c_str());
      if (!fn)
        finish("no-harness");
      fn();
      finish("return");
    }
    int st = 0;
    waitpid(p, &st, 0);
    char b[64];
    int n = 0;
    if (WIFSIGNALED(st))
      n = snprintf(b, sizeof b, "signal: %d | |\n", WTERMSIG(st));
    else if (WEXITSTATUS(st) != 0)
      n = snprintf(b, sizeof b, "exit: %d | |\n", WEXITSTATUS(st));
    if (n && write(1, b, n) < 0) {
    }
  }
  return 0;
}
