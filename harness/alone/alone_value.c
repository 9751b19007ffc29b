#include "value.h"
#include "value.h"
#include "alone.h"
static VALUE z = VALUE_NULL_INITIALIZER;
static int cmp(const char* a, size_t al, const char* b, size_t bl) { return (int) al - (int) bl; }
static int visit(const VALUE* k, VALUE* v, void* ctx) { *(int*) ctx += value_int32(v); return 0; }
ALONE(value)
{
    VALUE v, w;
    VALUE* p;
    const VALUE* keys[4];
    int n = 0;
    WRONG(value_type(&z) == VALUE_NULL && !value_is_new(&z));
    WRONG(value_init_string(&v, "a") == 0 && value_string(&v)[0] == 'a' && value_string_length(&v) == 1);
    value_fini(&v);
    WRONG(value_init_dict(&v) == 0 && value_init_dict_ex(&w, cmp, VALUE_DICT_MAINTAINORDER) == 0);
    WRONG(value_dict_flags(&w) == VALUE_DICT_MAINTAINORDER);
    p = value_build_path(&v, "x/[]");
    WRONG(p != ZERO && value_is_new(p) && value_init_int32(p, 42) == 0 && value_path(&v, "x/[0]") == p && value_uint64(p) == 42);
    WRONG((p = value_dict_add(&w, "k")) != ZERO && value_init_double(p, 3.0) == 0 && value_is_compatible(p, VALUE_INT32));
    WRONG(value_dict_walk_ordered(&w, visit, &n) == 0 && n == 3 && value_dict_keys_sorted(&w, keys, 4) == 1);
    value_fini(&v); value_fini(&w);
    return 0;
}
