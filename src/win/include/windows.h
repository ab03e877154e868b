/* A minimal stand-in for <windows.h>: what zycore's Windows branches use (and near relatives), with the documented types, values and
   prototypes. Used to compile these branches; in the simulated build (SIM_WINDOWS) the functions are provided by src/win/win32.c. */
#ifndef STANDIN_WINDOWS_H
#define STANDIN_WINDOWS_H
#ifdef SIM_WINDOWS
#   define WINAPI
#   define NTAPI
#   define CALLBACK
#   define DECLSPEC_IMPORT
    typedef int LONG; typedef unsigned int ULONG; typedef unsigned int DWORD;
#else
#   define WINAPI __stdcall
#   define NTAPI __stdcall
#   define CALLBACK __stdcall
#   define DECLSPEC_IMPORT __declspec(dllimport)
    typedef long LONG; typedef unsigned long ULONG; typedef unsigned long DWORD;
#endif
#define WINBASEAPI DECLSPEC_IMPORT
#define VOID void
#define CONST const
#define FALSE 0
#define TRUE 1
typedef int BOOL; typedef int INT; typedef unsigned int UINT; typedef unsigned short WORD; typedef unsigned char BYTE; typedef unsigned char BOOLEAN;
typedef char CHAR; typedef long long LONG64; typedef long long LONGLONG; typedef unsigned long long ULONG64; typedef unsigned long long ULONGLONG; typedef unsigned long long DWORD64;
typedef __SIZE_TYPE__ SIZE_T; typedef __SIZE_TYPE__ ULONG_PTR; typedef __SIZE_TYPE__ DWORD_PTR; typedef __INTPTR_TYPE__ LONG_PTR; typedef __INTPTR_TYPE__ INT_PTR;
typedef void* PVOID; typedef void* LPVOID; typedef const void* LPCVOID; typedef void* HANDLE; typedef DWORD* PDWORD; typedef DWORD* LPDWORD; typedef LONG* PLONG;
#define INVALID_HANDLE_VALUE ((HANDLE)(LONG_PTR)-1)
#define ERROR_SUCCESS 0L
#define ERROR_INVALID_HANDLE 6L
#define ERROR_NOT_ENOUGH_MEMORY 8L
#define ERROR_INVALID_PARAMETER 87L
#define ERROR_INVALID_ADDRESS 487L
#define PAGE_NOACCESS 0x01
#define PAGE_READONLY 0x02
#define PAGE_READWRITE 0x04
#define PAGE_WRITECOPY 0x08
#define PAGE_EXECUTE 0x10
#define PAGE_EXECUTE_READ 0x20
#define PAGE_EXECUTE_READWRITE 0x40
#define PAGE_EXECUTE_WRITECOPY 0x80
#define PAGE_GUARD 0x100
#define MEM_COMMIT 0x00001000
#define MEM_RESERVE 0x00002000
#define MEM_DECOMMIT 0x00004000
#define MEM_RELEASE 0x00008000
#define FLS_OUT_OF_INDEXES ((DWORD)0xFFFFFFFF)
#define TLS_OUT_OF_INDEXES ((DWORD)0xFFFFFFFF)
#define STD_INPUT_HANDLE ((DWORD)-10)
#define STD_OUTPUT_HANDLE ((DWORD)-11)
#define STD_ERROR_HANDLE ((DWORD)-12)
#define ENABLE_PROCESSED_OUTPUT 0x0001
#define ENABLE_WRAP_AT_EOL_OUTPUT 0x0002
#define ENABLE_VIRTUAL_TERMINAL_PROCESSING 0x0004
#define INFINITE 0xFFFFFFFF
typedef VOID (WINAPI *PFLS_CALLBACK_FUNCTION)(PVOID lpFlsData);
typedef struct _RTL_CRITICAL_SECTION { PVOID DebugInfo; LONG LockCount; LONG RecursionCount; HANDLE OwningThread; HANDLE LockSemaphore; ULONG_PTR SpinCount; } RTL_CRITICAL_SECTION, CRITICAL_SECTION, *PCRITICAL_SECTION, *LPCRITICAL_SECTION;
typedef struct _SYSTEM_INFO { union { DWORD dwOemId; struct { WORD wProcessorArchitecture; WORD wReserved; } s; } u; DWORD dwPageSize; LPVOID lpMinimumApplicationAddress; LPVOID lpMaximumApplicationAddress; DWORD_PTR dwActiveProcessorMask; DWORD dwNumberOfProcessors; DWORD dwProcessorType; DWORD dwAllocationGranularity; WORD wProcessorLevel; WORD wProcessorRevision; } SYSTEM_INFO, *LPSYSTEM_INFO;
#ifdef __cplusplus
extern "C" {
#endif
WINBASEAPI HANDLE WINAPI GetCurrentProcess(void);
WINBASEAPI DWORD WINAPI GetCurrentProcessId(void);
WINBASEAPI HANDLE WINAPI GetCurrentThread(void);
WINBASEAPI DWORD WINAPI GetCurrentThreadId(void);
WINBASEAPI DWORD WINAPI GetLastError(void);
WINBASEAPI VOID WINAPI SetLastError(DWORD);
WINBASEAPI VOID WINAPI GetSystemInfo(LPSYSTEM_INFO);
WINBASEAPI VOID WINAPI GetNativeSystemInfo(LPSYSTEM_INFO);
WINBASEAPI LPVOID WINAPI VirtualAlloc(LPVOID, SIZE_T, DWORD, DWORD);
WINBASEAPI BOOL WINAPI VirtualFree(LPVOID, SIZE_T, DWORD);
WINBASEAPI BOOL WINAPI VirtualProtect(LPVOID, SIZE_T, DWORD, PDWORD);
WINBASEAPI BOOL WINAPI FlushInstructionCache(HANDLE, LPCVOID, SIZE_T);
WINBASEAPI VOID WINAPI InitializeCriticalSection(LPCRITICAL_SECTION);
WINBASEAPI BOOL WINAPI InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION, DWORD);
WINBASEAPI VOID WINAPI EnterCriticalSection(LPCRITICAL_SECTION);
WINBASEAPI BOOL WINAPI TryEnterCriticalSection(LPCRITICAL_SECTION);
WINBASEAPI VOID WINAPI LeaveCriticalSection(LPCRITICAL_SECTION);
WINBASEAPI VOID WINAPI DeleteCriticalSection(LPCRITICAL_SECTION);
WINBASEAPI DWORD WINAPI FlsAlloc(PFLS_CALLBACK_FUNCTION);
WINBASEAPI BOOL WINAPI FlsFree(DWORD);
WINBASEAPI PVOID WINAPI FlsGetValue(DWORD);
WINBASEAPI BOOL WINAPI FlsSetValue(DWORD, PVOID);
WINBASEAPI HANDLE WINAPI GetStdHandle(DWORD);
WINBASEAPI BOOL WINAPI GetConsoleMode(HANDLE, LPDWORD);
WINBASEAPI BOOL WINAPI SetConsoleMode(HANDLE, DWORD);
#ifdef SIM_WINDOWS
#define SIM_(name, T, expr) static __inline__ __attribute__((always_inline, unused)) T name
SIM_(_InterlockedCompareExchange, LONG, )(LONG volatile* d, LONG x, LONG c) { return __sync_val_compare_and_swap(d, c, x); }
SIM_(_InterlockedIncrement, LONG, )(LONG volatile* d) { return (LONG)((ULONG)__sync_fetch_and_add(d, 1) + 1); }
SIM_(_InterlockedDecrement, LONG, )(LONG volatile* d) { return (LONG)((ULONG)__sync_fetch_and_sub(d, 1) - 1); }
SIM_(_InterlockedExchange, LONG, )(LONG volatile* d, LONG v) { LONG o; do o = *d; while (!__sync_bool_compare_and_swap(d, o, v)); return o; }
SIM_(_InterlockedExchangeAdd, LONG, )(LONG volatile* d, LONG v) { return __sync_fetch_and_add(d, v); }
SIM_(_InterlockedCompareExchange64, LONG64, )(LONG64 volatile* d, LONG64 x, LONG64 c) { return __sync_val_compare_and_swap(d, c, x); }
SIM_(_InterlockedIncrement64, LONG64, )(LONG64 volatile* d) { return (LONG64)((ULONG64)__sync_fetch_and_add(d, 1) + 1); }
SIM_(_InterlockedDecrement64, LONG64, )(LONG64 volatile* d) { return (LONG64)((ULONG64)__sync_fetch_and_sub(d, 1) - 1); }
SIM_(_InterlockedExchange64, LONG64, )(LONG64 volatile* d, LONG64 v) { LONG64 o; do o = *d; while (!__sync_bool_compare_and_swap(d, o, v)); return o; }
SIM_(_InterlockedExchangeAdd64, LONG64, )(LONG64 volatile* d, LONG64 v) { return __sync_fetch_and_add(d, v); }
SIM_(_InterlockedCompareExchangePointer, PVOID, )(PVOID volatile* d, PVOID x, PVOID c) { return __sync_val_compare_and_swap(d, c, x); }
SIM_(_InterlockedExchangePointer, PVOID, )(PVOID volatile* d, PVOID v) { PVOID o; do o = *d; while (!__sync_bool_compare_and_swap(d, o, v)); return o; }
#else
LONG _InterlockedCompareExchange(LONG volatile*, LONG, LONG);
LONG _InterlockedIncrement(LONG volatile*);
LONG _InterlockedDecrement(LONG volatile*);
LONG _InterlockedExchange(LONG volatile*, LONG);
LONG _InterlockedExchangeAdd(LONG volatile*, LONG);
LONG64 _InterlockedCompareExchange64(LONG64 volatile*, LONG64, LONG64);
LONG64 _InterlockedIncrement64(LONG64 volatile*);
LONG64 _InterlockedDecrement64(LONG64 volatile*);
LONG64 _InterlockedExchange64(LONG64 volatile*, LONG64);
LONG64 _InterlockedExchangeAdd64(LONG64 volatile*, LONG64);
PVOID _InterlockedCompareExchangePointer(PVOID volatile*, PVOID, PVOID);
PVOID _InterlockedExchangePointer(PVOID volatile*, PVOID);
#endif
#define InterlockedCompareExchange _InterlockedCompareExchange
#define InterlockedIncrement _InterlockedIncrement
#define InterlockedDecrement _InterlockedDecrement
#define InterlockedExchange _InterlockedExchange
#define InterlockedExchangeAdd _InterlockedExchangeAdd
#define InterlockedCompareExchange64 _InterlockedCompareExchange64
#define InterlockedIncrement64 _InterlockedIncrement64
#define InterlockedDecrement64 _InterlockedDecrement64
#define InterlockedExchange64 _InterlockedExchange64
#define InterlockedExchangeAdd64 _InterlockedExchangeAdd64
#define InterlockedCompareExchangePointer _InterlockedCompareExchangePointer
#define InterlockedExchangePointer _InterlockedExchangePointer
#ifdef __cplusplus
}
#endif
#endif
