#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" { int mcm_active = 0; static unsigned char dummy[65536]; unsigned char* mcm_reached = dummy; }
__attribute__((constructor(101))) static void start()
{
    if (const char* s = getenv("MCM")) { mcm_active = atoi(s); }
    if (const char* s = getenv("MCM_COVER")) { int fd = open(s, O_RDWR | O_CREAT, 0600); if (fd >= 0 && !ftruncate(fd, 65536)) { void* p = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) { mcm_reached = (unsigned char*)p; } close(fd); } }
}
