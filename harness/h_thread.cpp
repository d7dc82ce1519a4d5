// C23: what one thread does on its first call (compiled with -include fault_pre.h; native: with threads, under ThreadSanitizer)
#include "common.h"
#include <new>
using namespace ada::idna;
#ifdef THREAD_MAIN
static thread_local int fault = 0;
#else
static int fault = 0;
#endif
#ifdef THREAD_MAIN
#include <atomic>
#include <thread>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
static std::atomic<int> set_ups{0};
static thread_local int naps = 0;
static void nap() { if (naps) usleep(naps * 1000); }
#else
static void nap() {}
#endif
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  nap();
  return fault == 1 ? nullptr : operator new[](n);
}
namespace ada::idna::deflate {
size_t inflate_wrapped(const uint8_t* src, size_t src_len, uint8_t* dst, size_t dst_cap) {
#ifdef THREAD_MAIN
  set_ups.fetch_add(1, std::memory_order_relaxed);
#endif
  size_t n = inflate_genuine(src, src_len, dst, dst_cap);
  nap();
  return fault == 2 ? 0 : n;
}
}
// 0 the operation reports failure, 1 success
static int operation(size_t op) {
  std::u32string s(U"e\u0301\u00e9"), t;
  std::string o;
  switch (op) {
    case 0: return map(s, t);
    case 1: return is_already_nfc(U"a\u00e9");
    case 2: return normalize(s);
    case 3: return is_label_valid(U"\u05d0\u0661");
    case 4: return valid_name_code_point(U'\u00e9', true);
    case 5: return to_ascii("\xc3\xa9", o);
    case 6: return to_unicode("xn--9ca", o) && o == "\xc3\xa9";
    default: return valid_name_code_point(U'\u0661', false) && map(s, t) && normalize(s) && is_label_valid(U"\u05d0\u0661");
  }
}
#ifndef THREAD_MAIN
extern "C" {
void one_thread() {
  fault = (int)sym_choice("fault", 3);
  int r = operation(sym_param("op", 0));
  sym_event(1, (u64)r);
  sym_event(2, (u64)fault);
}
}
#else
// thread_main op,delay_ms,nap_ms,fault ...   all threads; then every thread's answer must fit the final one
struct Th { int op, delay, nap, fault, result; };
int main(int n, char** v) {
  std::vector<Th> t;
  for (int i = 1; i < n; i++) {
    Th x{};
    sscanf(v[i], "%d,%d,%d,%d", &x.op, &x.delay, &x.nap, &x.fault);
    t.push_back(x);
  }
  std::vector<std::thread> w;
  static std::atomic<int> here{0};
  static int all = 0;
  for (Th& x : t) if (x.delay < 0) all++;
  for (Th& x : t) w.emplace_back([&x] {
    if (x.delay < 0) {  // all of these start at the same moment
      here.fetch_add(1, std::memory_order_relaxed);
      while (here.load(std::memory_order_relaxed) < all) {}
    } else usleep(1000 * x.delay);
    naps = x.nap;
    fault = x.fault;
    x.result = operation(x.op);
  });
  for (auto& x : w) x.join();
  int last = operation(7), bad = 0;
  for (Th& x : t) if (x.result && !last) bad = 1;
  bool faulty = false;
  for (Th& x : t) faulty |= x.fault != 0;
  if (!faulty) for (Th& x : t) if (!x.result) bad = 1;
  if (set_ups > 1) bad = 1;
  printf("set-ups %d last %d", set_ups.load(), last);
  for (Th& x : t) printf(" %d", x.result);
  puts(bad ? " BAD" : "");
  return bad;
}
#endif
