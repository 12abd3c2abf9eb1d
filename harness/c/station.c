/* Stand-in for every program a start script runs: records its arguments and what passes through it.
 * Its role comes from the name it is called by.  Nothing real is tuned, killed or sent. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>

static FILE *log_;
static uint64_t h = 1469598103934665603ULL;
static long total;
static void mix(const unsigned char *p, size_t n) {
    for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ULL;
    total += n;
}

int main(int argc, char **argv) {
    const char *name = strrchr(argv[0], '/');
    name = name ? name + 1 : argv[0];
    const char *role = name, *dir = getenv("STATION_LOG"), *dec = getenv("STATION_DECODER");
    int first = 1;
    if (!strncmp(name, "python", 6)) {
        role = NULL;
        for (int i = 1; i + 1 < argc; i++) {
            if (strcmp(argv[i], "-m")) continue;
            if (!strcmp(argv[i + 1], "horusdemodlib.uploader")) role = "horus_uploader";
            if (!strcmp(argv[i + 1], "horusdemodlib.demod")) role = "horus_demod";
            first = i + 2;
            break;
        }
        if (!role) {
            const char *real = getenv("STATION_PYTHON");
            argv[0] = (char *)real;
            execv(real, argv);
            return 127;
        }
    }
    if (dec && !strcmp(name, dec)) role = "horus_demod";
    char path[4096];
    snprintf(path, sizeof path, "%s/%d", dir, (int)getpid());
    log_ = fopen(path, "w");
    if (!log_) return 126;
    fprintf(log_, "%s\n", role);
    for (int i = first; i < argc; i++) {
        fprintf(log_, "a");
        for (char *p = argv[i]; *p; p++) fprintf(log_, "%02x", (unsigned char)*p);
        fprintf(log_, "\n");
    }
    static unsigned char buf[65536];
    size_t n;
    if (!strcmp(role, "rtl_fm") || !strcmp(role, "rx_fm") || !strcmp(role, "nc") || !strcmp(role, "pcmrecord")) {
        uint32_t x = 12345u + (uint32_t)getpid() * 7919u;
        long todo = atol(getenv("STATION_BYTES"));
        while (todo > 0) {
            n = todo < (long)sizeof buf ? todo : sizeof buf;
            for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; buf[i] = x >> 24; }
            if (fwrite(buf, 1, n, stdout) != n) break;
            mix(buf, n);
            todo -= n;
        }
        fflush(stdout);
        fprintf(log_, "out %016llx %ld\n", (unsigned long long)h, total);
    } else if (!strcmp(role, "horus_demod")) {
        for (int k = 0; k < 3; k++) printf("{\"demod\": %d}\n", (int)getpid());
        fflush(stdout);
        while ((n = fread(buf, 1, sizeof buf, stdin)) > 0) mix(buf, n);
        for (int k = 0; k < 997; k++) printf("packet %d of %d\n", k, (int)getpid());
        fflush(stdout);
        fprintf(log_, "in %016llx %ld\n", (unsigned long long)h, total);
    } else if (!strcmp(role, "horus_uploader")) {
        char line[512];
        long lines = 0;
        int who = -1, mixed = 0;
        FILE *f = fopen(getenv("STATION_SAID"), "rb");
        while (f && (n = fread(buf, 1, sizeof buf, f)) > 0) fwrite(buf, 1, n, stdout);
        if (f) fclose(f);
        fflush(stdout);
        while (fgets(line, sizeof line, stdin)) {
            int a, b = -2, c;
            if (sscanf(line, "{\"demod\": %d}", &b) != 1 && (sscanf(line, "packet %d of %d", &a, &b) != 2)) b = -2;
            if (who == -1) who = b; else if (who != b) mixed = 1;
            lines++;
            (void)c;
        }
        fprintf(log_, "from %d %ld %d\n", who, lines, mixed);
    }
    fprintf(log_, "end\n");
    fclose(log_);
    return 0;
}
