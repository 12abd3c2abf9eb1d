/* dsp: feeds real samples to the real receiver (no stand-ins).
 *   O <mode> <Rs> <spacing> <Fs> <P>      open, 0 0 0 0 = horus_open defaults -> o h maxin maxascii mfsk nin
 *   F <h> <lo> <hi>                       frequency estimator limits
 *   A <h> <quad> <file>                   attach a raw s16 file as the handle's input
 *   S <h> <nblocks>                       feed up to that many blocks from the file -> one "r" line per block
 *   E <h>                                 detach the file
 *   G <h> <kind> <seed> <nblocks> <quad>  feed generated samples: kind 0 zero, 1 noise, 2 full-scale noise, 3 max, 4 min,
 *                                         5 square +-32767, 6 tone sweep, 7 impulses, 8 mixture
 *   V <h> <v>                             verbose
 *   C <h>                                 close
 * every block line: r <h> <nin used> <nin next> <maxin> <ret> <crc> <len> <maxascii> <ok> <hex text>
 *   ok: statistics are finite enough to be read (they are read under the sanitizers)
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include "horus_api.h"
#define MAXH 64
static struct horus *H[MAXH]; static FILE *F[MAXH]; static int Q[MAXH]; static int nh;
static uint64_t rs_;
static uint32_t rnd(void) { rs_ = rs_ * 6364136223846793005ULL + 1442695040888963407ULL; return rs_ >> 33; }

static void block(int h, short *d, int quad, int nin) {
    int mx = horus_get_max_ascii_out_len(H[h]);
    char *out = malloc(mx); memset(out, 0, mx);
    int ret = horus_rx(H[h], out, d, quad);
    int crc = horus_crc_ok(H[h]);
    struct MODEM_STATS *st = malloc(sizeof(struct MODEM_STATS));
    horus_get_modem_extended_stats(H[h], st);
    int sync; float snr;
    horus_get_modem_stats(H[h], &sync, &snr);
    int len = 0; while (len < mx && out[len]) len++;
    int next = (int)horus_nin(H[h]);
    printf("r %d %d %d %d %d %d %d %d %d ", h, nin, next, horus_get_max_demod_in(H[h]), ret, crc, len, mx, horus_get_mFSK(H[h]));
    for (int i = 0; i < len && i < mx; i++) printf("%02x", (unsigned char)out[i]);
    printf(" %a %a %a", st->snr_est, st->f_est[0], snr);
    int M = horus_get_mFSK(H[h]); float lo = 9e9, hi = -9e9; int bad = 0;
    for (int i = 0; i < st->neyetr && i < MODEM_STATS_ET_MAX; i++)
        for (int j = 0; j < st->neyesamp && j < MODEM_STATS_EYE_IND_MAX; j++) {
            float e = st->rx_eye[i][j];
            if (!isfinite(e)) bad = 1;
            if (e < lo) lo = e;
            if (e > hi) hi = e;
        }
    for (int m = 1; m < M; m++) printf(" %a", st->f_est[m]);
    printf(" %a %a %d %d %a %a %d %d\n", st->clock_offset, st->rx_timing, st->neyetr, st->neyesamp, lo, hi, bad, sync);
    free(out); free(st);
}

int main(void) {
    char *line = NULL; size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0) {
        line[strcspn(line, "\n")] = 0;
        int h, a, b, c, d;
        if (line[0] == 'O') {
            sscanf(line + 1, "%d %d %d %d %d", &h, &a, &b, &c, &d);
            H[nh] = c ? horus_open_advanced_sample_rate(h, a, b, c, d) : a ? horus_open_advanced(h, a, b) : horus_open(h);
            printf("o %d %d %d %d %u\n", nh, horus_get_max_demod_in(H[nh]), horus_get_max_ascii_out_len(H[nh]), horus_get_mFSK(H[nh]), horus_nin(H[nh]));
            nh++;
        } else if (line[0] == 'F') {
            float lo, hi; sscanf(line + 1, "%d %f %f", &h, &lo, &hi);
            horus_set_freq_est_limits(H[h], lo, hi); printf("f\n");
        } else if (line[0] == 'V') {
            sscanf(line + 1, "%d %d", &h, &a); horus_set_verbose(H[h], a); printf("v\n");
        } else if (line[0] == 'A') {
            int off; sscanf(line + 1, "%d %d %n", &h, &a, &off);
            F[h] = fopen(line + 1 + off, "rb"); Q[h] = a; if (!F[h]) return 3; printf("a\n");
        } else if (line[0] == 'E') {
            sscanf(line + 1, "%d", &h); if (F[h]) fclose(F[h]); F[h] = NULL; printf("e\n");
        } else if (line[0] == 'S') {
            sscanf(line + 1, "%d %d", &h, &a);
            int done = 0;
            for (; done < a; done++) {
                int nin = (int)horus_nin(H[h]);
                int w = Q[h] ? 2 : 1;
                short *buf = malloc(sizeof(short) * nin * w);
                if (fread(buf, sizeof(short) * w, nin, F[h]) != (size_t)nin) { free(buf); break; }
                block(h, buf, Q[h], nin);
                free(buf);
            }
            printf("s %d\n", done);
        } else if (line[0] == 'G') {
            int kind, seed, nb, quad; sscanf(line + 1, "%d %d %d %d %d", &h, &kind, &seed, &nb, &quad);
            rs_ = seed * 2654435761u + 12345; long t = 0;
            for (int k = 0; k < nb; k++) {
                int nin = (int)horus_nin(H[h]); int n = nin * (quad ? 2 : 1);
                short *buf = malloc(sizeof(short) * n);
                int kd = kind == 8 ? (int)(rnd() % 8) : kind;
                for (int i = 0; i < n; i++, t++) {
                    double v = 0;
                    switch (kd) {
                        case 0: v = 0; break;
                        case 1: v = (int)(rnd() % 2000) - 1000; break;
                        case 2: v = (int)(rnd() % 65536) - 32768; break;
                        case 3: v = 32767; break;
                        case 4: v = -32768; break;
                        case 5: v = (t / (5 + seed % 50)) % 2 ? 32767 : -32768; break;
                        case 6: v = 20000 * sin(1e-7 * t * (double)t * (1 + seed % 9)); break;
                        case 7: v = rnd() % 500 == 0 ? 32767 : 0; break;
                    }
                    buf[i] = (short)v;
                }
                block(h, buf, quad, nin);
                free(buf);
            }
            printf("g\n");
        } else if (line[0] == 'C') {
            sscanf(line + 1, "%d", &h); horus_close(H[h]); H[h] = NULL; if (F[h]) fclose(F[h]); F[h] = NULL; printf("c\n");
        } else return 5;
        fflush(stdout);
    }
    for (int i = 0; i < nh; i++) { if (H[i]) horus_close(H[i]); if (F[i]) fclose(F[i]); }
    free(line);
    return 0;
}
