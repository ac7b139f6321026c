// Native side of the harness interface: runs one harness entry on concrete values taken from a model file.
//   native ENTRY MODELFILE [param=value ...]
// exit: 0 completed, 1 assertion failed, 77 an assumption does not hold, anything else: crash
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <string>
#include <unistd.h>
#include "sym.h"
static std::map<std::string, uint64_t> vals;
static std::map<std::string, unsigned> cnt;
static std::map<std::string, long> params;
static int fillByte = -1;
static void onMalloc(const volatile void *p, size_t n)
{
    if (fillByte >= 0 && n < 100000) memset((void *)p, fillByte, n);
}
static void onFree(const volatile void *) {}
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
__attribute__((noinline, no_sanitize("address"))) static void paint(int b)
{
    volatile char a[200000];
    for (size_t i = 0; i < sizeof a; i++) a[i] = (char)b;
}
static uint64_t mask(uint64_t v, int w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static uint64_t next(const char *name)
{
    std::string k = std::string(name) + "#" + std::to_string(cnt[name]++);
    auto it = vals.find(k);
    return it == vals.end() ? 0 : it->second;
}
extern "C"
{
    uint64_t sym_u(const char *name, int width) { return mask(next(name), width); }
    void sym_bytes(void *p, size_t n, const char *name)
    {
        for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next(name);
    }
    void sym_assume_(int c)
    {
        if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); _exit(77); }
    }
    void sym_assert_(int c, const char *label)
    {
        if (!c) { printf("ASSERT-FAIL %s\n", label); fflush(stdout); _exit(1); }
    }
    void sym_reach(const char *label) { printf("REACH %s\n", label); }
    void sym_observe(const char *label, uint64_t v) { printf("OBS %s %llx\n", label, (unsigned long long)v); }
    long sym_param(const char *name, long d) { auto it = params.find(name); return it == params.end() ? d : it->second; }
    int sym_choose(const char *name, int n) { int v = (int)mask(next(name), 32); return v >= 0 && v < n ? v : 0; }
    uint64_t sym_concretize(uint64_t v) { return v; }
    int sym_symbolic(void) { return 0; }
    void sym_fill(int b)
    {
        static bool done = false;
        if (!done && __sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
        done = true;
        fillByte = b;
        paint(b < 0 ? 0xAA : b);
    }
    uint64_t sym_ite(uint64_t c, uint64_t a, uint64_t b) { return c ? a : b; }
    int sym_memeq(const void *p, const void *q, size_t n) { return memcmp(p, q, n) == 0; }
    int sym_is_const(uint64_t) { return 1; }
    const char *__asan_default_options() { return "detect_leaks=0:malloc_fill_byte=190:max_malloc_fill_size=268435456:allocator_may_return_null=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:handle_abort=1:alloc_dealloc_mismatch=1:max_allocation_size_mb=2048"; }
    const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }
}
int main(int argc, char **argv)
{
    if (argc < 3) return 2;
    FILE *f = fopen(argv[2], "r");
    if (!f) return 2;
    char name[512];
    int w;
    unsigned long long v;
    while (fscanf(f, "%500s %d %llx", name, &w, &v) == 3) vals[name] = v;
    fclose(f);
    for (int i = 3; i < argc; i++)
    {
        std::string a = argv[i];
        auto e = a.find('=');
        if (e != std::string::npos) params[a.substr(0, e)] = std::stol(a.substr(e + 1));
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    fn();
    printf("RETURN\n");
    fflush(stdout);
    _exit(0);
}
