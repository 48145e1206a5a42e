// The printing functions of the repository, declared with the formats they take.
#include <cstdio>
__attribute__((format(printf, 3, 4))) void dfpair(FILE*, const char*, const char*, ...);
__attribute__((format(printf, 1, 2))) void fatal(const char*, ...);
__attribute__((format(printf, 2, 3))) void fatalx(int, const char*, ...);
__attribute__((format(printf, 1, 2))) void warn(const char*, ...);
__attribute__((format(printf, 2, 3))) void warnx(int, const char*, ...);
