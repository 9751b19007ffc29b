/* Each of these units includes one header, as the first thing, twice, and
 * nothing else, and does something with the interface. It gives 0, or the
 * number of the line on which an answer was wrong. Compiled as C and as C++. */
#ifdef __cplusplus
    #define ALONE(name)     extern "C" int alone_cpp_##name(void); extern "C" int alone_cpp_##name(void)
    #define ZERO            0
#else
    #define ALONE(name)     int alone_c_##name(void); int alone_c_##name(void)
    #define ZERO            ((void*) 0)
#endif
#define WRONG(cond)         do { if(!(cond)) return __LINE__; } while(0)
