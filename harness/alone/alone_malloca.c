#include "malloca.h"
#include "malloca.h"
#include "alone.h"
ALONE(malloca)
{
    char* p = (char*) MALLOCA(10);
    char* q = (char*) MALLOCA(5000);
    char* r = (char*) MALLOCA_(300, 200);
    int i;
    WRONG(p != ZERO && q != ZERO && r != ZERO);
    for(i = 0; i < 5000; i++) { q[i] = 1; p[i % 10] = 2; r[i % 300] = 3; }
    WRONG(p[9] == 2 && q[4999] == 1 && r[299] == 3);
    FREEA(p); FREEA(q); FREEA(r);
    return 0;
}
