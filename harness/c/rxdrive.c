/* rxdrive: steps the real horus_api receiver with scripted demodulated bits.
 *
 * Linked with -Wl,--wrap=fsk_demod_core (and the two thin wrappers around it), so the DSP is replaced
 * by a stand-in that reads the "demodulated" bits straight out of the samples the
 * caller passed to horus_rx().  Everything else -- bit buffer, unique word search, packet
 * extraction, FEC, CRC -- is the unmodified code of /repo.
 *
 * Line protocol on stdin/stdout:
 *   O <mode> <Rs> <spacing> <Fs> <P>   -> o <handle> <nbits> <maxascii> <nin> <mfsk>
 *   R <h> <policy> <quad> <bits as 0/1>  -> r <ret> <crc_ok> <version> <len> <hex of ascii_out>
 *        policy Z: zeroed output buffer each call (as demod.py), P: buffer poisoned with '$', C<hex>: with that character,
 *               K: buffer kept from the previous call (as horus_demod)
 *   N <h>                              -> n <nin>
 *   C <h>                              -> c
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "horus_api.h"
#include "fsk.h"

#define MAXH 64
int horus_packet_version(struct horus *hstates);
static struct horus *H[MAXH];
static char *OUTB[MAXH];
static int nh;

void __wrap_fsk_demod_core(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[], COMP fsk_in[]) {
    for (int i = 0; i < fsk->Nbits; i++) {
        int b = fsk_in[i].real > 0;
        if (rx_bits) rx_bits[i] = b;
        if (rx_sd) rx_sd[i] = b ? 1.0f : -1.0f;
    }
}
void __wrap_fsk_demod(struct FSK *fsk, uint8_t rx_bits[], COMP fsk_in[]) {
    __wrap_fsk_demod_core(fsk, rx_bits, NULL, fsk_in);
}
void __wrap_fsk_demod_sd(struct FSK *fsk, float rx_sd[], COMP fsk_in[]) {
    __wrap_fsk_demod_core(fsk, NULL, rx_sd, fsk_in);
}

int main(void) {
    char *line = NULL; size_t cap = 0; ssize_t n;
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    setvbuf(stderr, NULL, _IOFBF, 1 << 16);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        while (n > 0 && (line[n-1] == '\n' || line[n-1] == '\r')) line[--n] = 0;
        if (line[0] == 'O') {
            int mode, rs, sp, fs, p;
            if (sscanf(line + 1, "%d %d %d %d %d", &mode, &rs, &sp, &fs, &p) != 5) return 3;
            struct horus *h = fs ? horus_open_advanced_sample_rate(mode, rs, sp, fs, p)
                                 : (rs ? horus_open_advanced(mode, rs, sp) : horus_open(mode));
            H[nh] = h; OUTB[nh] = NULL;
            if (nh % 5 == 4) horus_set_verbose(h, 1);       /* talking about it must change nothing */
            /* Nbits through a public route: symbols per block = nin / Ts */
            int nin = (int)horus_nin(h);
            int bits = 50 * (horus_get_mFSK(h) == 4 ? 2 : 1);
            printf("o %d %d %d %d %d\n", nh, bits, horus_get_max_ascii_out_len(h), nin, horus_get_mFSK(h));
            nh++;
        } else if (line[0] == 'R') {
            int h, quad, off = 0; char pols[8];
            if (sscanf(line + 1, "%d %7s %d %n", &h, pols, &quad, &off) < 3) return 3;
            char pol = pols[0] == 'C' ? 'P' : pols[0];
            int poison = pols[0] == 'C' ? (int)strtol(pols + 1, NULL, 16) : '$';
            const char *bits = line + 1 + off;
            int nb = (int)strlen(bits);
            int nin = (int)horus_nin(H[h]);
            int mx = horus_get_max_ascii_out_len(H[h]);
            if (nb > nin) return 4;
            short *d = malloc(sizeof(short) * nin * (quad ? 2 : 1));
            for (int i = 0; i < nin; i++) {
                short v = (i < nb) ? (bits[i] == '1' ? 1000 : -1000) : 0;
                if (quad) { d[2*i] = v; d[2*i+1] = 0; } else d[i] = v;
            }
            char *out;
            if (pol == 'K') {
                if (!OUTB[h]) { OUTB[h] = malloc(mx); memset(OUTB[h], 0, mx); }
                out = OUTB[h];
            } else {
                out = malloc(mx);
                memset(out, pol == 'P' ? poison : 0, mx);
            }
            int ret = horus_rx(H[h], out, d, quad);
            int crc = horus_crc_ok(H[h]);
            int ver = (ret && mx == 257) ? horus_packet_version(H[h]) : 0;
            int len = 0;
            while (len < mx && out[len]) len++;
            if (len == mx) { if (pol == 'P' && !ret) len = 0; else len = -1; }
            printf("r %d %d %d %d ", ret, crc, ver, len);
            for (int i = 0; i < len; i++) printf("%02x", (unsigned char)out[i]);
            printf("\n");
            if (pol != 'K') free(out);
            free(d);
        } else if (line[0] == 'N') {
            printf("n %u\n", horus_nin(H[atoi(line + 1)]));
        } else if (line[0] == 'C') {
            int h = atoi(line + 1);
            horus_close(H[h]); H[h] = NULL;
            free(OUTB[h]); OUTB[h] = NULL;
            printf("c\n");
        } else if (line[0] == 'F') {
            fflush(stdout);
        } else return 5;
    }
    fflush(stdout);
    free(line);
    for (int i = 0; i < nh; i++) { if (H[i]) horus_close(H[i]); free(OUTB[i]); }
    return 0;
}
