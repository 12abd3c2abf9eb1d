/* fskgen: independent continuous phase M-FSK transmitter for tests.
 *   fskgen <out.raw> M Fs Rs f0 shift amp phase lead_samples clock_ppm noise_rms seed quad [drift [mix.raw]] < bits ('0'/'1' text)
 * drift: Hz per second; mix.raw: another recording of the same kind, received at the same time.
 * symbol = the next log2(M) bits, first bit most significant; tone = f0 + symbol * shift.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
static uint64_t s_ = 88172645463325252ULL;
static double u(void) { s_ ^= s_ << 13; s_ ^= s_ >> 7; s_ ^= s_ << 17; return ((s_ >> 11) + 1) / 9007199254740994.0; }
static double gauss(void) { return sqrt(-2 * log(u())) * cos(2 * M_PI * u()); }
int main(int argc, char **argv) {
    if (argc < 14 || argc > 16) return 2;
    double drift = argc > 14 ? atof(argv[14]) : 0; FILE *mix = argc > 15 ? fopen(argv[15], "rb") : NULL; int mixed = mix != NULL;
    int M = atoi(argv[2]); double Fs = atof(argv[3]), Rs = atof(argv[4]), f0 = atof(argv[5]), sh = atof(argv[6]);
    double amp = atof(argv[7]), ph = atof(argv[8]); int lead = atoi(argv[9]); double ppm = atof(argv[10]), nz = atof(argv[11]);
    s_ ^= (uint64_t)atoi(argv[12]) * 0x9E3779B97F4A7C15ULL; int quad = atoi(argv[13]);
    FILE *o = fopen(argv[1], "wb"); if (!o) return 3;
    size_t cap = 1 << 16, n = 0; char *b = malloc(cap); int c;
    while ((c = getchar()) != EOF) { if (c != '0' && c != '1') continue; if (n == cap) b = realloc(b, cap *= 2); b[n++] = c; }
    int bps = M == 4 ? 2 : 1; size_t ns = n / bps;
    double spsym = Fs / Rs * (1 + ppm * 1e-6);
    long total = lead + (long)(ns * spsym);
    for (long i = 0; i < total || mixed; i++) {
        double re = 0, im = 0;
        if (i >= lead && i < total) {
            size_t k = (size_t)((i - lead) / spsym); if (k >= ns) k = ns - 1;
            int sym = 0; for (int j = 0; j < bps; j++) sym = sym * 2 + (b[k * bps + j] == '1');
            ph += 2 * M_PI * (f0 + sym * sh + drift * i / Fs) / Fs;
            if (ph > 1e6) ph = fmod(ph, 2 * M_PI);
            re = amp * cos(ph); im = amp * sin(ph);
        }
        re += nz * gauss(); if (quad) im += nz * gauss();
        double v[2] = {re, im}; short m[2] = {0, 0};
        if (mixed && fread(m, 2, quad ? 2 : 1, mix) != (size_t)(quad ? 2 : 1)) { mixed = 0; if (i >= total) break; m[0] = m[1] = 0; }
        for (int q = 0; q < (quad ? 2 : 1); q++) {
            double x = v[q] + m[q]; if (x > 32767) x = 32767; if (x < -32768) x = -32768;
            short sv = (short)lrint(x); fwrite(&sv, 2, 1, o);
        }
    }
    fclose(o); return 0;
}
