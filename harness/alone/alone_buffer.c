#include "buffer.h"
#include "buffer.h"
#include "alone.h"
static STACK st = STACK_INITIALIZER;
static ARRAY_int32 ar = ARRAY_int32_INITIALIZER;
static ARRAY_uint8 ar8 = ARRAY_uint8_INITIALIZER;
static ARRAY_int64 ar64 = ARRAY_int64_INITIALIZER;
static ARRAY_ptr arp = ARRAY_ptr_INITIALIZER;
ALONE(buffer)
{
    BUFFER b, c = BUFFER_INITIALIZER;
    int x;
    buffer_init(&b);
    WRONG(buffer_append(&b, "hello", 5) == 0 && buffer_size(&b) == 5 && ((const char*) buffer_const_data(&b))[4] == 'o');
    buffer_swap(&b, &c);
    WRONG(buffer_is_empty(&b) && buffer_size(&c) == 5);
    buffer_remove(&c, 1, 3);
    WRONG(buffer_size(&c) == 2 && ((char*) buffer_data_at(&c, 1))[0] == 'o');
    buffer_clear(&c);
    buffer_fini(&b); buffer_fini(&c);
    WRONG(stack_push_int32(&st, 7) == 0 && stack_push_uint8(&st, 200) == 0 && stack_push_ptr(&st, &x) == 0);
    WRONG(stack_pop_ptr(&st) == &x && stack_peek_uint8(&st) == 200 && stack_pop_uint8(&st) == 200 && stack_pop_int32(&st) == 7);
    WRONG(stack_is_empty(&st));
    stack_fini(&st); stack_init(&st);
    for(x = 0; x < 50; x++) {
        WRONG(array_int32_append(&ar, x) == 0 && array_uint8_append(&ar8, (uint8_t) x) == 0);
        WRONG(array_int64_insert(&ar64, 0, x) == 0 && array_ptr_append(&arp, &x) == 0);
    }
    WRONG(array_int32_size(&ar) == 50 && array_int32_get(&ar, 49) == 49 && array_uint8_get(&ar8, 49) == 49 &&
          array_int64_get(&ar64, 0) == 49 && array_ptr_get(&arp, 3) == &x);
    array_int32_remove(&ar, 10);
    WRONG(array_int32_size(&ar) == 49 && array_int32_get(&ar, 10) == 11);
    array_int32_fini(&ar); array_uint8_fini(&ar8); array_int64_fini(&ar64); array_ptr_fini(&arp);
    array_int32_init(&ar); array_uint8_init(&ar8); array_int64_init(&ar64); array_ptr_init(&arp);
    return 0;
}
