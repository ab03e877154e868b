// A small fake of the Win32 services the library uses, for running its Windows branches (compiled with `sim_windows`) on this machine.
// Documented behaviour only; threads and locks are this machine's, memory and consoles are pure models.
#pragma once
#ifndef NO_WIN
#include "engine.hpp"
#include <Zycore/Types.h>
#include <Zycore/Status.h>
#include <atomic>
#include <map>
#include <pthread.h>
#include <stdio.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace win {
typedef unsigned DWORD; typedef int BOOL; typedef void* HANDLE;
inline thread_local DWORD last_error = 0; inline std::atomic<int> misuse{0}, locks{0};
inline thread_local int arm = 0; inline thread_local bool fired = false; // refuse the armed service once
inline bool refuse(int which) { if (arm != which) return false; arm = 0; fired = true; last_error = 8; return true; }
// ---- critical sections
struct Section { void* impl; int a, b; void *c, *d; size_t e; };
struct Lock { pthread_mutex_t m; size_t magic; };
inline Lock* lock_of(Section* s) { if (!s || (size_t)s->c != ((size_t)s ^ 0x5EC7)) { misuse |= 1; return nullptr; } return (Lock*)s->impl; }
// ---- fake memory: pages of one region
struct Memory { size_t page = 4096, gran = 65536, base = 0, pages = 0; bool live = false; DWORD prot[64]; size_t flushed_at = 0, flushed_n = 0, flushes = 0; };
inline Memory memory;
// ---- fake console
struct Stream { bool open = true, console = false, device = false, refuse_mode = false; DWORD mode = 3; };
inline Stream stream[3];
}
extern "C" {
void InitializeCriticalSection(win::Section* s) { ++win::locks; auto l = new win::Lock; pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&l->m, &a); pthread_mutexattr_destroy(&a); s->impl = l; s->c = (void*)((size_t)s ^ 0x5EC7); }
win::BOOL InitializeCriticalSectionAndSpinCount(win::Section* s, win::DWORD) { InitializeCriticalSection(s); return 1; }
void EnterCriticalSection(win::Section* s) { if (auto l = win::lock_of(s)) pthread_mutex_lock(&l->m); }
win::BOOL TryEnterCriticalSection(win::Section* s) { auto l = win::lock_of(s); return l && pthread_mutex_trylock(&l->m) == 0 ? 2 : 0; } // documented: nonzero, not one
void LeaveCriticalSection(win::Section* s) { if (auto l = win::lock_of(s)) if (pthread_mutex_unlock(&l->m)) win::misuse |= 2; }
void DeleteCriticalSection(win::Section* s) { if (auto l = win::lock_of(s)) { if (pthread_mutex_destroy(&l->m)) win::misuse |= 4; delete l; --win::locks; s->c = nullptr; } }
win::HANDLE GetCurrentProcess(void) { return (win::HANDLE)(intptr_t)-1; }
win::DWORD GetCurrentProcessId(void) { return (win::DWORD)getpid(); }
win::HANDLE GetCurrentThread(void) { return (win::HANDLE)pthread_self(); }
win::DWORD GetCurrentThreadId(void) { return (win::DWORD)syscall(SYS_gettid) * 4; }
win::DWORD GetLastError(void) { return win::last_error; }
void SetLastError(win::DWORD e) { win::last_error = e; }
win::DWORD FlsAlloc(void (*cb)(void*)) { if (win::refuse(1)) return 0xFFFFFFFFu; pthread_key_t k; if (pthread_key_create(&k, cb)) { win::last_error = 8; return 0xFFFFFFFFu; } return k; }
win::BOOL FlsFree(win::DWORD k) { if (win::refuse(2)) return 0; if (pthread_key_delete(k)) { win::last_error = 87; return 0; } return 4; }
void* FlsGetValue(win::DWORD k) { void* p = pthread_getspecific(k); win::last_error = 0; return p; }
win::BOOL FlsSetValue(win::DWORD k, void* p) { if (win::refuse(3)) return 0; if (pthread_setspecific(k, p)) { win::last_error = 87; return 0; } return 8; }
struct SystemInfo { unsigned oem, page; void *lo, *hi; size_t mask; unsigned n, type, gran; unsigned short level, rev; };
void GetSystemInfo(SystemInfo* i) { memset(i, 0, sizeof *i); i->page = (unsigned)win::memory.page; i->gran = (unsigned)win::memory.gran; i->n = 4; }
void GetNativeSystemInfo(SystemInfo* i) { GetSystemInfo(i); }
win::BOOL VirtualProtect(void* a, size_t n, win::DWORD p, win::DWORD* old)
{
    auto& m = win::memory; size_t x = (size_t)a; if (win::refuse(1)) return 0;
    if (!old || !m.live || !n || x < m.base || x + n > m.base + m.pages * m.page || x + n < x) { win::last_error = old ? 487 : 998; return 0; }
    if (p != 1 && p != 2 && p != 4 && p != 0x10 && p != 0x20 && p != 0x40) { win::last_error = 87; return 0; }
    size_t i = (x - m.base) / m.page, j = (x + n - 1 - m.base) / m.page; *old = m.prot[i]; for (; i <= j; ++i) m.prot[i] = p;
    return 16;
}
win::BOOL VirtualFree(void* a, size_t n, win::DWORD type)
{
    auto& m = win::memory; size_t x = (size_t)a; if (win::refuse(2)) return 0;
    if (type == 0x8000) { if (n || !m.live || x != m.base) { win::last_error = 87; return 0; } m.live = false; return 32; }
    win::last_error = 87; return 0;
}
void* VirtualAlloc(void*, size_t, win::DWORD, win::DWORD) { win::last_error = 8; return nullptr; }
win::BOOL FlushInstructionCache(win::HANDLE p, const void* a, size_t n) { if (win::refuse(3)) return 0; if (p != GetCurrentProcess()) { win::last_error = 6; return 0; } win::memory.flushed_at = (size_t)a; win::memory.flushed_n = n; ++win::memory.flushes; return 64; }
// the C runtime's view of the standard streams; -2: no file is associated
int _fileno(FILE* f) { int i = f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : -1; return i >= 0 && win::stream[i].open ? i : -2; }
intptr_t _get_osfhandle(int f) { if (f < 0 || f > 2 || !win::stream[f].open) { errno = EBADF; return -1; } return 0x100 + 4 * f; }
int _isatty(int f) { if (f < 0 || f > 2 || !win::stream[f].open) { errno = EBADF; return 0; } if (win::stream[f].console || win::stream[f].device) return 64; return 0; } // sets errno for invalid descriptors only
win::HANDLE GetStdHandle(win::DWORD n) { int i = n == (win::DWORD)-10 ? 0 : n == (win::DWORD)-11 ? 1 : n == (win::DWORD)-12 ? 2 : -1; return i < 0 || !win::stream[i].open ? (win::HANDLE)(intptr_t)-1 : (win::HANDLE)(intptr_t)(0x100 + 4 * i); }
static int win_stream_of(win::HANDLE h) { for (int i = 0; i < 3; ++i) if (h == (win::HANDLE)(intptr_t)(0x100 + 4 * i) && win::stream[i].open) return i; win::last_error = 6; return -1; }
win::BOOL GetConsoleMode(win::HANDLE h, win::DWORD* m) { int i = win_stream_of(h); if (i < 0 || !m) return 0; if (!win::stream[i].console) { win::last_error = 6; return 0; } *m = win::stream[i].mode; return 128; }
win::BOOL SetConsoleMode(win::HANDLE h, win::DWORD m) { int i = win_stream_of(h); if (i < 0) return 0; if (!win::stream[i].console) { win::last_error = 6; return 0; } if (win::stream[i].refuse_mode) { win::last_error = 87; return 0; } win::stream[i].mode = m; return 128; }
// the library's Windows branches
ZyanStatus win_ZyanCriticalSectionInitialize(void*); ZyanStatus win_ZyanCriticalSectionEnter(void*); ZyanBool win_ZyanCriticalSectionTryEnter(void*); ZyanStatus win_ZyanCriticalSectionLeave(void*); ZyanStatus win_ZyanCriticalSectionDelete(void*);
ZyanStatus win_ZyanThreadGetCurrentThread(void**); ZyanStatus win_ZyanThreadGetCurrentThreadId(unsigned*); ZyanStatus win_ZyanThreadTlsAlloc(unsigned*, void (*)(void*)); ZyanStatus win_ZyanThreadTlsFree(unsigned); ZyanStatus win_ZyanThreadTlsGetValue(unsigned, void**); ZyanStatus win_ZyanThreadTlsSetValue(unsigned, void*);
ZyanU32 win_ZyanMemoryGetSystemPageSize(void); ZyanU32 win_ZyanMemoryGetSystemAllocationGranularity(void); ZyanStatus win_ZyanMemoryVirtualProtect(void*, ZyanUSize, int); ZyanStatus win_ZyanMemoryVirtualFree(void*, ZyanUSize); ZyanStatus win_ZyanProcessFlushInstructionCache(void*, ZyanUSize);
ZyanStatus win_ZyanTerminalEnableVT100(int); ZyanStatus win_ZyanTerminalIsTTY(int);
extern const int win_consts[8]; // the page protections and streams as the Windows branch defines them
}
static_assert(sizeof(win::Section) == sizeof(void*) * 4 + 8, "");
#endif
