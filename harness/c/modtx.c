/* modtx: drives the modulator functions of /repo/src/fsk.c and measures what was sent, symbol by symbol.
 *   L <r|c|v> M Fs Rs f1 shift Nsym <bits>   modulate with fsk_mod / fsk_mod_c / fsk_mod_ext_vco, block by block
 *   Q M Fs Rs f1 shift <file>                measure a file of 16 bit samples (made by the fsk_mod program)
 *   G <r|c> M Fs Rs f1 shift Nsym <symbol or -1: random> <blocks> <bits>   the same, after that many blocks of other symbols
 * Every symbol period is projected (least squares) on the M tones; answer:
 *   m <samples left over> <tone,purity per mille,level per mille of full scale,discontinuity of the phase to the symbol before in mrad> ...
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include "fsk.h"

static void measure(double *re, double *im, long n, int M, double Fs, int Ts, double f1, double sh, double full) {
    double phase = 0;
    printf("m %ld", n % Ts);
    for (long k = 0; k + Ts <= n; k += Ts) {
        double best = -1, level = 0, start = 0, end = 0, next = 0; int who = -1;
        for (int m = 0; m < M; m++) {
            double w = 2 * M_PI * (f1 + m * sh) / Fs, p, ph, amp, t = 0;
            for (int i = 0; i < Ts; i++) t += re[k + i] * re[k + i] + (im ? im[k + i] * im[k + i] : 0);
            if (im) {
                double a = 0, b = 0;
                for (int i = 0; i < Ts; i++) { double c = cos(w * i), s = sin(w * i); a += re[k + i] * c + im[k + i] * s; b += im[k + i] * c - re[k + i] * s; }
                p = (a * a + b * b) / Ts;
                amp = sqrt(a * a + b * b) / Ts;
                ph = atan2(b, a);
            } else {
                double cc = 0, ss = 0, cs = 0, xc = 0, xs = 0;
                for (int i = 0; i < Ts; i++) { double c = cos(w * i), s = sin(w * i), x = re[k + i]; cc += c * c; ss += s * s; cs += c * s; xc += x * c; xs += x * s; }
                double d = cc * ss - cs * cs, a = (xc * ss - xs * cs) / d, b = (xs * cc - xc * cs) / d;
                p = a * xc + b * xs;
                amp = sqrt(a * a + b * b);
                ph = atan2(-b, a);
            }
            double pur = t > 0 ? p / t : 0;
            if (pur > best) { best = pur; who = m; level = amp; start = ph - w; end = ph + w * (Ts - 1); }
        }
        next = k ? remainder(start - phase, 2 * M_PI) : 0;                /* the first sample is one step of the new tone after the last one */
        phase = end;
        printf(" %d,%d,%d,%d", who, (int)floor(best * 1000 + 0.5), (int)floor(level / full * 1000 + 0.5), (int)floor(fabs(next) * 1000 + 0.5));
    }
    printf("\n");
}

int main(void) {
    char *line = NULL; size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0) {
        if (line[0] == 'L' || line[0] == 'G') {
            char fn; int M, Fs, Rs, f1, sh, Nsym, off;
            sscanf(line + 2, "%c %d %d %d %d %d %d %n", &fn, &M, &Fs, &Rs, &f1, &sh, &Nsym, &off);
            char *b = line + 2 + off;
            long warm = 0; int sym = -1, off2 = 0; unsigned seed = 1;
            if (line[0] == 'G') { sscanf(b, "%d %ld %n", &sym, &warm, &off2); b += off2; }
            long nb = strspn(b, "01");
            struct FSK *f = fsk_create_hbr(Fs, Rs, M, Fs / Rs, Nsym, f1, sh);
            int Nbits = f->Nbits, N = f->N; long blocks = nb / Nbits, n = 0;
            double *re = malloc(sizeof(double) * (blocks * N + 1)), *im = malloc(sizeof(double) * (blocks * N + 1));
            uint8_t *bits = malloc(Nbits);
            float *out = malloc(sizeof(float) * N); COMP *outc = malloc(sizeof(COMP) * N);
            for (long k = 0; k < warm; k++) {
                int per = M == 2 ? 1 : 2;
                for (int i = 0; i < Nbits; i++) { seed = seed * 1103515245u + 12345u; bits[i] = sym < 0 ? (seed >> 16) & 1 : (sym >> (per - 1 - i % per)) & 1; }
                if (fn == 'r') fsk_mod(f, out, bits); else fsk_mod_c(f, outc, bits);
            }
            for (long k = 0; k < blocks; k++) {
                for (int i = 0; i < Nbits; i++) bits[i] = b[k * Nbits + i] == '1';
                if (fn == 'r') fsk_mod(f, out, bits); else if (fn == 'c') fsk_mod_c(f, outc, bits); else fsk_mod_ext_vco(f, out, bits);
                for (int i = 0; i < N; i++, n++) { re[n] = fn == 'c' ? outc[i].real : out[i]; im[n] = fn == 'c' ? outc[i].imag : 0; }
            }
            if (fn == 'v') {                     /* the samples are the frequencies themselves */
                printf("m 0");
                for (long k = 0; k + f->Ts <= n; k += f->Ts) {
                    int who = -1, same = 0;
                    for (int m = 0; m < M; m++) if (fabs(re[k] - (f1 + m * sh)) < 0.01) who = m;
                    for (int i = 0; i < f->Ts; i++) same += re[k + i] == re[k];
                    printf(" %d,%d,0,0", who, same * 1000 / f->Ts);
                }
                printf("\n");
            } else measure(re, fn == 'c' ? im : NULL, n, M, Fs, Fs / Rs, f1, sh, 2);
            free(re); free(im); free(bits); free(out); free(outc); fsk_destroy(f);
        } else if (line[0] == 'Q') {
            int M, Fs, Rs, f1, sh, off;
            sscanf(line + 2, "%d %d %d %d %d %n", &M, &Fs, &Rs, &f1, &sh, &off);
            char *name = line + 2 + off; name[strcspn(name, "\n")] = 0;
            FILE *fi = fopen(name, "rb"); if (!fi) return 3;
            fseek(fi, 0, SEEK_END); long n = ftell(fi) / 2; rewind(fi);
            int16_t *s = malloc(2 * n + 2); n = fread(s, 2, n, fi); fclose(fi);
            double *re = malloc(sizeof(double) * (n + 1));
            for (long i = 0; i < n; i++) re[i] = s[i];
            measure(re, NULL, n, M, Fs, Fs / Rs, f1, sh, 2000);
            free(s); free(re);
        }
    }
    return 0;
}
