/* Preloaded when a case is replayed on the real executable. As in engine/src/env.rs, a variable called
   "*" stands for every variable that is not set and not a documented setting, and the file named by
   SXH_ANYFILE for every file that does not exist and is not called pemv.toml; the descriptors listed in
   SXH_TTY are terminals. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
extern char **environ;
static char *find(const char *name) {
    size_t l = strlen(name);
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, l) && (*e)[l] == '=') return *e + l + 1;
    return 0;
}
char *getenv(const char *name) {
    static const char *known[] = {"PEMV_CONFIG", "PEMV_PROFILE", "PEMV_CLI_COLOUR", "PEMV_MASKING_CHARACTERS", "PEMV_SORT_PARSED_TAGS"};
    char *v = strcmp(name, "*") ? find(name) : 0;
    if (v) return v;
    for (unsigned i = 0; i < sizeof known / sizeof *known; i++) if (!strcmp(name, known[i])) return 0;
    return strncmp(name, "RUST_", 5) && strncmp(name, "SXH_", 4) ? find("*") : 0;
}
/* The file to use instead of a missing one. */
static const char *any(const char *path) {
    const char *b = strrchr(path, '/');
    if (!*path || !strcmp(b ? b + 1 : path, "pemv.toml") || !strncmp(path, "/proc/", 6) || !strncmp(path, "/sys/", 5) || !strncmp(path, "/dev/", 5)) return 0;
    return find("SXH_ANYFILE");
}
#define RETRY(call, other) ({ long r = call; const char *o; if (r < 0 && errno == ENOENT && (o = any(path))) { path = o; r = other; } r; })
int open64(const char *path, int flags, ...) {
    va_list a; va_start(a, flags); int mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a);
    if (flags & O_CREAT) return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    return RETRY(syscall(SYS_openat, AT_FDCWD, path, flags, mode), syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
int open(const char *path, int flags, ...) {
    va_list a; va_start(a, flags); int mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a);
    return open64(path, flags, mode);
}
int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict buf) {
    return RETRY(syscall(SYS_statx, dir, path, flags, mask, buf), syscall(SYS_statx, AT_FDCWD, path, flags, mask, buf));
}
int stat64(const char *restrict path, struct stat64 *restrict buf) {
    return RETRY(syscall(SYS_newfstatat, AT_FDCWD, path, buf, 0), syscall(SYS_newfstatat, AT_FDCWD, path, buf, 0));
}
int isatty(int fd) {
    const char *v = find("SXH_TTY");
    if (v && fd >= 0 && fd < 10 && strchr(v, '0' + fd)) return 1;
    errno = ENOTTY;
    return 0;
}
