/* Whole lives of receivers and of everything they give out, one per line of standard input: the mode; the signal (argv[1]) is fed
   to a new receiver, which is then closed.  Tells "U" for each. */
#include <stdio.h>
#include <stdlib.h>
#include "horus_api.h"
int main(int argc, char **argv) {
    static short sig[2000000];
    FILE *f = fopen(argv[1], "rb");
    int n = f ? (int)fread(sig, 2, sizeof sig / 2, f) : 0, mode, quad, i, k = 0;
    if (f) fclose(f);
    setvbuf(stdout, NULL, _IOLBF, 0);
    while (scanf("%d %d", &mode, &quad) == 2) {
        struct horus *h = k++ % 3 ? horus_open_advanced(mode, mode ? 100 : 100, mode ? 450 : 270) : horus_open(mode);
        char *out;
        if (!h) { printf("U\n"); continue; }
        out = malloc(horus_get_max_ascii_out_len(h) + 1000);
        if (k % 2) horus_set_freq_est_limits(h, 200, 4000);
        horus_set_verbose(h, 0);
        for (i = 0; i + (int)horus_nin(h) * (1 + quad) <= n; ) {
            int nin = horus_nin(h);
            horus_rx(h, out, sig + i, quad);
            i += nin * (1 + quad);
        }
        free(out);
        horus_close(h);
        printf("U\n");
    }
    return 0;
}
