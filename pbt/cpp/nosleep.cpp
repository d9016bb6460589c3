// Linked into the harness build of the language server: the server sleeps 1 ms per header character while it scans
// for a frame.  Turning the sleeps into no-ops changes no output, only how long a generated session takes.
#include <time.h>
#include <unistd.h>
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return 0; }
extern "C" int usleep(useconds_t) { return 0; }
