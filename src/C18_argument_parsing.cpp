// technique: property testing against an independent reference parser (random option tables and token lists), ASan/UBSan, shrinking; libFuzzer in the thorough tier
#include "sys_arg.hpp"
#include "locales.hpp"

PropertyInfo PROPERTY = {"C18", "exploration",
    "A case is a random option table (0..7 options, sometimes malformed, sometimes absent), limits for unnamed arguments and 0..13 tokens "
    "(options, clusters, attached and separate values, unknown options, lone dashes and double dashes, empty tokens), parsed with the "
    "default or a recording allocator and compared with a reference parser (status, error token, order, binding, value addresses); "
    "non-trivial: a successful parse of at least 3 entries, or a failure behind at least 2 accepted tokens",
    3000000, 36000000, 2000, 3, 3,
    {"option names are unique, the name -- is not used", "the error token is not constrained for malformed tables and too few arguments"}};

void run_case(Src& s)
{
    InLocale locale(s);
    const Api& A = native_api();
    ArgCase c; c.generate(s); c.trace();
    RecAlloc ra; bool ex = s.chance(3, 4), want = s.chance(7, 8);
    Guarded pv(sizeof(ZyanVector), 0xCC); ZyanVector* parsed = (ZyanVector*)pv.p;
    const char* et = "unset"; ZyanStatus st;
    OP(ex ? "ArgParseEx" : "ArgParse");
    st = ex ? ZyanArgParseEx(&c.cfg, parsed, want ? &et : nullptr, &ra) : ZyanArgParse(&c.cfg, parsed, want ? &et : nullptr);
    if (!want) c.tok_known = false;
    c.compare(A, st, parsed, et);
    ra.check_empty(ZYAN_FAILED(st) ? "after failed parsing" : "after destruction of the parsed arguments");
    LABEL_IF(c.saw_cluster, "cluster"); LABEL_IF(c.saw_value, "option value"); LABEL_IF(c.saw_ddash, "end of options");
    // no switch: the codes may collide in a changed tree
    LABEL_IF(c.est == ZYAN_STATUS_SUCCESS, "success"); LABEL_IF(c.est == ZYAN_STATUS_ARG_NOT_UNDERSTOOD, "unknown option");
    LABEL_IF(c.est == ZYAN_STATUS_ARG_MISSES_VALUE, "missing value"); LABEL_IF(c.est == ZYAN_STATUS_TOO_MANY_ARGS, "too many");
    LABEL_IF(c.est == ZYAN_STATUS_TOO_FEW_ARGS, "too few"); LABEL_IF(c.est == ZYAN_STATUS_REQUIRED_ARG_MISSING, "required option missing");
    LABEL_IF(c.est == ZYAN_STATUS_INVALID_ARGUMENT, "malformed table");
    if (c.est == ZYAN_STATUS_SUCCESS ? c.exp.size() >= 3 : c.tok.size() >= 4 && c.est != ZYAN_STATUS_INVALID_ARGUMENT) mark_nontrivial();
}
