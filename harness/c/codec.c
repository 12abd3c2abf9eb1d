/* codec: batch driver of the frame codec of /repo/src (golay23, horus_l2).
 *   E <hex>            -> e <announced length> <returned length> <hex>      encode a payload
 *   D <n> <hex>        -> d <hex>                        decode a frame into n payload bytes
 *   S <n>              -> s <announced tx length>
 *   C <hex>            -> c <crc16>
 *   G <table file>     -> g <words checked> <mismatches> <first bad word>
 *        table file (written by TLC): 4096 parities then 2048 leaders; every 12 bit word is encoded
 *        and every one of the 2^23 received words is decoded and compared.
 *   K <n>              -> k <words> <mismatches> <first>  golay23_count_errors over sampled pairs
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "golay23.h"
#include "horus_l2.h"

static int unhex(const char *s, unsigned char *out) {
    int n = 0;
    while (s[0] && s[1] && s[0] != '\n') {
        unsigned v;
        if (sscanf(s, "%2x", &v) != 1) break;
        out[n++] = v; s += 2;
    }
    return n;
}
static void puthex(const unsigned char *b, int n) { for (int i = 0; i < n; i++) printf("%02x", b[i]); }

int main(void) {
    char *line = NULL; size_t cap = 0;
    horus_l2_init();
    while (getline(&line, &cap, stdin) > 0) {
        if (line[0] == 'E') {
            unsigned char *raw = malloc(strlen(line));
            int n = unhex(line + 2, raw);
            unsigned char *in = malloc(n ? n : 1); memcpy(in, raw, n); free(raw);
            int ann = horus_l2_get_num_tx_data_bytes(n);
            unsigned char *out = malloc(ann); memset(out, 0xA5, ann);
            int r = horus_l2_encode_tx_packet(out, in, n);
            printf("e %d %d ", ann, r); puthex(out, ann); printf("\n");
            free(in); free(out);
        } else if (line[0] == 'D') {
            int n, off;
            sscanf(line + 2, "%d %n", &n, &off);
            unsigned char *raw = malloc(strlen(line));
            int m = unhex(line + 2 + off, raw);
            int ann = horus_l2_get_num_tx_data_bytes(n);
            if (m != ann) { printf("d !%d\n", ann); free(raw); continue; }
            unsigned char *in = malloc(m); memcpy(in, raw, m); free(raw);
            unsigned char *out = malloc(n); memset(out, 0x5A, n);
            horus_l2_decode_rx_packet(out, in, n);
            printf("d "); puthex(out, n); printf("\n");
            free(in); free(out);
        } else if (line[0] == 'S') {
            printf("s %d\n", horus_l2_get_num_tx_data_bytes(atoi(line + 2)));
        } else if (line[0] == 'C') {
            unsigned char *raw = malloc(strlen(line));
            int n = unhex(line + 2, raw);
            unsigned char *in = malloc(n ? n : 1); memcpy(in, raw, n); free(raw);
            printf("c %d\n", horus_l2_gen_crc16(in, n));
            free(in);
        } else if (line[0] == 'G') {
            line[strcspn(line, "\n")] = 0;
            FILE *f = fopen(line + 2, "r");
            if (!f) return 3;
            static int par[4096], lead[2048];
            for (int i = 0; i < 4096; i++) if (fscanf(f, "%d", &par[i]) != 1) return 3;
            for (int i = 0; i < 2048; i++) if (fscanf(f, "%d", &lead[i]) != 1) return 3;
            fclose(f);
            long words = 0, bad = 0; int first = -1;
            for (int d = 0; d < 4096; d++) {
                words++;
                int cw = golay23_encode(d);
                if (cw != (d << 11 | par[d])) { if (!bad++) first = d; }
            }
            /* every received word = codeword(d) ^ leader(s): the code is perfect, so this visits all 2^23 */
            for (int d = 0; d < 4096; d++) for (int s = 0; s < 2048; s++) {
                int w = (d << 11 | par[d]) ^ lead[s];
                words++;
                int got = golay23_decode(w);
                if ((got >> 11) != d || (got & 2047) != par[d]) { if (!bad++) first = w; }
            }
            printf("g %ld %ld %d\n", words, bad, first);
        } else return 5;
        fflush(stdout);
    }
    free(line);
    return 0;
}
