/** linked into the program SylinderSystem_main: counts the changes of files it makes, and kills it at one of them (C39) */
#include "fsevents.hpp"

#include <signal.h>

namespace {
long count = 0, victim = -1;
void onEvent(const char *) {
    if (++count == victim)
        kill(getpid(), SIGKILL);
}
int rank() {
    const char *r = getenv("OMPI_COMM_WORLD_RANK");
    return r ? atoi(r) : 0;
}
struct Setup {
    Setup() {
        const char *r = getenv("PBT_KILL_RANK"), *e = getenv("PBT_KILL_EVENT");
        if (r && e && atoi(r) == rank())
            victim = atol(e);
        fsev::tracker().handler = onEvent;
    }
    ~Setup() {
        fsev::tracker().handler = nullptr;
        if (const char *p = getenv("PBT_EVENTS")) {
            FILE *f = fopen((std::string(p) + "." + std::to_string(rank())).c_str(), "w");
            if (f) {
                fprintf(f, "%ld\n", count);
                fclose(f);
            }
        }
    }
} setup;
} // namespace
