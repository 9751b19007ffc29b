#include "cmdline.h"
#include "cmdline.h"
#include "alone.h"
static const CMDLINE_OPTION options[] = {
    { 'a', "aa", 1, 0 }, { 'b', "bb", 2, CMDLINE_OPTFLAG_REQUIREDARG }, { 'c', "cc", 3, CMDLINE_OPTFLAG_OPTIONALARG },
    { 0, "-D", 4, CMDLINE_OPTFLAG_COMPILERLIKE }, { 0, ZERO, 0, 0 }
};
static int cb(int id, const char* arg, void* u)
{
    int* n = (int*) u;
    *n = *n * 10 + (id == CMDLINE_OPTID_UNKNOWN ? 5 : id == CMDLINE_OPTID_MISSINGARG ? 6 : id == CMDLINE_OPTID_BOGUSARG ? 7 : id == CMDLINE_OPTID_NONE ? 8 : id);
    return 0;
}
ALONE(cmdline)
{
    char p[] = "prg", a[] = "-a", b[] = "--bb=x", c[] = "--cc", d[] = "-Dx", e[] = "--zz", f[] = "file", g[] = "--aa=1", h[] = "-b";
    char* argv[] = { p, a, b, c, d, e, f, g, h };
    int n = 0;
    WRONG(cmdline_read(options, 9, argv, cb, &n) == 0 && n == 12345876);
    return 0;
}
