// Can 32-bit programs with the sanitizers be built and run here?
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" const char* __asan_default_options() { return "detect_leaks=0"; }
int main()
{
    std::map<int, int> m; for (int i = 0; i < 100; ++i) m[i] = i;
    void* p = mmap(nullptr, 64 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 1;
    pid_t c = fork(); if (c == 0) { *(volatile int*)p = m[7]; _exit(0); }
    int st; if (c < 0 || waitpid(c, &st, 0) != c || st || *(int*)p != 7) return 1;
    try { throw 3; } catch (int e) { return e == 3 ? 0 : 1; }
}
