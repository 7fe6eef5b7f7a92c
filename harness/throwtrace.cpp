// Records where an exception was thrown, so that a report names the throwing site.
#include <dlfcn.h>
#include <execinfo.h>
#include <cstring>
#include <string>
#include <typeinfo>
#include <cstdio>
extern "C" {
void __asan_handle_no_return(void);
void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n);
static thread_local void *g_stack[48];
static thread_local int g_n = 0;
void __cxa_throw(void *obj, std::type_info *ti, void (*dest)(void *)) {
  g_n = backtrace(g_stack, 48);
  __asan_handle_no_return();
  using F = void (*)(void *, std::type_info *, void (*)(void *));
  static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "__cxa_throw"));
  real(obj, ti, dest);
  __builtin_unreachable();
}
}
namespace vf {
// innermost function of the code under test on the stack of the last throw
std::string throwSite() {
  for (int i = 1; i < g_n; i++) {
    char buf[1024];
    __sanitizer_symbolize_pc(static_cast<char *>(g_stack[i]) - 1, "%s|%f", buf, sizeof buf);
    // inlined frames come as consecutive NUL-terminated strings; the first is the innermost
    std::string s = buf;
    auto bar = s.find('|');
    std::string file = s.substr(0, bar), fn = bar == std::string::npos ? "" : s.substr(bar + 1);
    if (file.find("/source/") != std::string::npos && file.find("/verif/") == std::string::npos &&
        file.find("/usr/") == std::string::npos) {
      auto par = fn.find('(');
      if (par != std::string::npos) fn = fn.substr(0, par);
      auto c = fn.rfind("haptics::");
      if (c != std::string::npos) fn = fn.substr(c);
      return fn;
    }
  }
  return "?";
}
} // namespace vf
