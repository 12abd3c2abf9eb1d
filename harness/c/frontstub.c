/* A scripted modem behind the C front end: FRONT_SCRIPT gives one line per block (nin crc ret texthex|- junkhex|-), FRONT_LOG
   receives what the front end did. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "horus_api.h"

#define MUL 40503u
#define ADD 12345u
#define INV 0
struct blk { int nin, crc, ret; unsigned char *t; int nt; };
static struct blk *B;
static int nB, k, mode, maxnin;
static FILE *lg;
static struct horus dummy;

static void load(void) {
    FILE *f;
    static char line[8192], t[4096], j[4096];
    struct blk b;
    if (B) return;
    f = fopen(getenv("FRONT_SCRIPT"), "r");
    lg = fopen(getenv("FRONT_LOG"), "w");
    B = calloc(20000, sizeof *B);
    while (fgets(line, sizeof line, f)) {
        int i, n = 0;
        unsigned x;
        if (sscanf(line, "%d %d %d %4095s %4095s", &b.nin, &b.crc, &b.ret, t, j) != 5) continue;
        b.t = calloc(1, 4096);
        if (strcmp(t, "-")) for (i = 0; t[2*i]; i++) { sscanf(t + 2*i, "%2x", &x); b.t[n++] = x; }
        b.t[n++] = 0;
        if (strcmp(j, "-")) for (i = 0; j[2*i]; i++) { sscanf(j + 2*i, "%2x", &x); b.t[n++] = x; }
        b.nt = n;
        if (b.nin > maxnin) maxnin = b.nin;
        B[nB++] = b;
    }
    fclose(f);
}
static struct horus *op(int m, int rs, int sp) {
    load();
    mode = m;
    fprintf(lg, "O %d %d %d\n", m, rs, sp);
    return &dummy;
}
struct horus *horus_open(int m) { return op(m, -1, -1); }
struct horus *horus_open_advanced(int m, int rs, int sp) { return op(m, rs, sp); }
struct horus *horus_open_advanced_sample_rate(int m, int rs, int sp, int fs, int p) { return op(m, rs, sp); }
void horus_close(struct horus *h) { fprintf(lg, "C\n"); fclose(lg); }
void horus_set_verbose(struct horus *h, int v) { if (lg) fprintf(lg, "V %d\n", v); }
int horus_get_version(void) { return HORUS_API_VERSION; }
int horus_get_mode(struct horus *h) { return mode; }
int horus_get_Fs(struct horus *h) { return 48000; }
int horus_get_mFSK(struct horus *h) { return mode >= 89 ? 2 : 4; }
int horus_get_max_demod_in(struct horus *h) { return maxnin; }
int horus_get_max_ascii_out_len(struct horus *h) { return mode >= 89 ? 121 : 257; }
uint32_t horus_nin(struct horus *h) { return B[k % nB].nin; }
void horus_set_freq_est_limits(struct horus *h, float lo, float hi) { fprintf(lg, "L %d %d\n", (int)lo, (int)hi); }
int horus_get_total_payload_bits(struct horus *h) { return 0; }
int horus_crc_ok(struct horus *h) { return k ? B[(k - 1) % nB].crc : 0; }
static void fill(struct MODEM_STATS *s) {
    int i;
    memset(s, 0, sizeof *s);
    s->snr_est = k * 0.5; s->sync = k & 1; s->clock_offset = k; s->neyetr = 2; s->neyesamp = 3;
    for (i = 0; i < 4; i++) s->f_est[i] = 1000 * (i + 1) + k;
}
void horus_get_modem_stats(struct horus *h, int *sync, float *snr) { *sync = k & 1; *snr = k * 0.5; }
void horus_get_modem_extended_stats(struct horus *h, struct MODEM_STATS *s) { fill(s); }
int horus_rx(struct horus *h, char out[], short in[], int quad) {
    struct blk *b = &B[k % nB];
    int n = b->nin * (quad ? 2 : 1), i, run = 0, m;
    unsigned first = 0;
    for (i = 0; i < 65536; i++) if ((short)(i * MUL + ADD) == in[0]) { first = i; break; }
    for (i = 0; i < n; i++) { if (in[i] != (short)((first + i) * MUL + ADD)) break; run++; }
    fprintf(lg, "B %d %d %u %d\n", b->nin, quad ? 1 : 0, first, run);
    fflush(lg);
    m = horus_get_max_ascii_out_len(h);
    memcpy(out, b->t, b->nt < m ? b->nt : m);
    k++;
    return b->ret;
}
