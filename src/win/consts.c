#include <Zycore/API/Memory.h>
#include <Zycore/API/Terminal.h>
extern const int win_consts[8];
const int win_consts[8] = {ZYAN_PAGE_READONLY, ZYAN_PAGE_READWRITE, ZYAN_PAGE_EXECUTE, ZYAN_PAGE_EXECUTE_READ, ZYAN_PAGE_EXECUTE_READWRITE, ZYAN_STDSTREAM_IN, ZYAN_STDSTREAM_OUT, ZYAN_STDSTREAM_ERR};
