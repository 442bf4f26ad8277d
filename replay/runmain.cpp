// runmain FILE: calls batch entry points one input at a time, reporting progress, so that a crash,
// a sanitizer report or an endless loop can be attributed to one input.
// FILE: "symbol type(f d l i) columns hasorder", then one input per line: [order] hexbits...
#include <cfenv>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <unistd.h>

static unsigned char in[64], out[64];

static void bits(const char* s, unsigned char* p, int n)
{
   std::memset(p, 0, n);
   const int len = std::strlen(s);
   for (int i = 0; i < len && i/2 < n; i++) {
      const char c = s[len - 1 - i];
      const int v = c <= '9' ? c - '0' : c - 'a' + 10;
      p[i/2] |= v << (4*(i % 2));
   }
}

int main(int argc, char** argv)
{
   FILE* f = std::fopen(argv[1], "r");
   char sym[64], ty;
   int cols, hasn, k = 0;
   if (!f || std::fscanf(f, "%63s %c %d %d", sym, &ty, &cols, &hasn) != 4) return 90;
   void* fn = dlsym(RTLD_DEFAULT, sym);
   if (!fn) return 91;
   const int sz = ty == 'f' ? 4 : ty == 'd' || ty == 'i' ? 8 : 16;
   char a[64];
   for (;; k++) {
      int64_t n = 0;
      if (hasn) { if (std::fscanf(f, "%63s", a) != 1) break; n = std::strtoll(a, nullptr, 10); }
      bool end = false;
      for (int c = 0; c < cols; c++) {
         if (std::fscanf(f, "%63s", a) != 1) { end = true; break; }
         if (ty == 'i') { const int64_t v = std::strtoll(a, nullptr, 10); std::memcpy(in, &v, 8); }
         else bits(a, in + c*sz, sz);
      }
      if (end) break;
      char line[32];
      int len = std::snprintf(line, sizeof line, "> %d\n", k);
      if (write(1, line, len) != len) return 92;
      std::feclearexcept(FE_ALL_EXCEPT);
      if (hasn) ((void (*)(const int64_t*, const void*, void*, long))fn)(&n, in, out, 1);
      else ((void (*)(const void*, void*, long))fn)(in, out, 1);
      len = std::snprintf(line, sizeof line, "< %d %d\n", k, std::fetestexcept(FE_INVALID) != 0);
      if (write(1, line, len) != len) return 92;
   }
   return 0;
}
