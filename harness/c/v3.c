/* The C encoder and decoder of Horus Binary v3 messages, driven line by line.
 *   E <tokens>   encode a message                      -> "B <hex>" or "FAIL"
 *   D <hex>      decode (a buffer of exactly that size) -> "M <re-encoded hex or -> <tokens>" or "FAIL"
 *   T <hex>      decode every proper prefix             -> "T <lengths accepted...>"
 * Tokens (one message): call seq tod lat lon alt sensors vel sats asc press temps hum mv counts psm custom, "-" where absent,
 * text and octets in hex after "=", groups as "+ a b c d", lists as "<n> ...". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "Telemetry.h"

static char *save;
static char *tok(void) { char *t = strtok_r(NULL, " \n", &save); if (!t) { fprintf(stderr, "short line\n"); exit(3); } return t; }
static int absent(char *t) { return strcmp(t, "-") == 0; }
static long *opt(char *t) { if (absent(t)) return NULL; long *p = malloc(sizeof *p); *p = strtol(t, NULL, 10); return p; }
static size_t unhex(const char *h, uint8_t *o) {
    size_t n = strlen(h) / 2;
    for (size_t i = 0; i < n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); o[i] = v; }
    return n;
}
static void octets(OCTET_STRING_t *s, const char *t) {
    uint8_t b[70000]; size_t n = unhex(t + 1, b);
    s->buf = malloc(n + 1); memcpy(s->buf, b, n); s->buf[n] = 0; s->size = n;
}
static void phex(const uint8_t *b, size_t n) { printf("="); for (size_t i = 0; i < n; i++) printf("%02x", b[i]); printf(" "); }
static void popt(const long *p) { if (p) printf("%ld ", *p); else printf("- "); }

static Telemetry_t *build(void) {
    Telemetry_t *m = calloc(1, sizeof *m);
    octets(&m->payloadCallsign, tok());
    m->sequenceNumber = strtol(tok(), NULL, 10);
    m->timeOfDaySeconds = strtol(tok(), NULL, 10);
    m->latitude = strtol(tok(), NULL, 10);
    m->longitude = strtol(tok(), NULL, 10);
    m->altitudeMeters = strtol(tok(), NULL, 10);
    char *t = tok();
    if (!absent(t)) {
        m->extraSensors = calloc(1, sizeof *m->extraSensors);
        for (int n = atoi(t); n > 0; n--) {
            struct AdditionalSensorType *s = calloc(1, sizeof *s);
            if (!absent(t = tok())) { s->name = calloc(1, sizeof *s->name); octets(s->name, t); }
            if (!absent(t = tok())) {
                struct CustomFieldValues *v = s->values = calloc(1, sizeof *v);
                if (!strcmp(t, "str")) { v->present = CustomFieldValues_PR_horusStr; octets(&v->choice.horusStr, tok()); }
                else if (!strcmp(t, "int")) {
                    v->present = CustomFieldValues_PR_horusInt;
                    for (int k = atoi(tok()); k > 0; k--) ASN_SEQUENCE_ADD(&v->choice.horusInt.list, opt(tok()));
                } else if (!strcmp(t, "real")) {
                    v->present = CustomFieldValues_PR_horusReal;
                    for (int k = atoi(tok()); k > 0; k--) {
                        double *d = malloc(sizeof *d); unsigned long long u = strtoull(tok(), NULL, 16);
                        memcpy(d, &u, 8); ASN_SEQUENCE_ADD(&v->choice.horusReal.list, d);
                    }
                } else {
                    v->present = CustomFieldValues_PR_horusBool; t = tok(); BitFlags_t *b = &v->choice.horusBool;
                    b->b0 = t[0] == '1'; b->b1 = t[1] == '1'; b->b2 = t[2] == '1'; b->b3 = t[3] == '1';
                    b->b4 = t[4] == '1'; b->b5 = t[5] == '1'; b->b6 = t[6] == '1'; b->b7 = t[7] == '1';
                }
            }
            ASN_SEQUENCE_ADD(&m->extraSensors->list, s);
        }
    }
    m->velocityHorizontalKilometersPerHour = opt(tok());
    m->gnssSatellitesVisible = opt(tok());
    m->ascentRateCentimetersPerSecond = opt(tok());
    m->pressurehPa_x10 = opt(tok());
    if (!absent(tok())) {
        m->temperatureCelsius_x10 = calloc(1, sizeof *m->temperatureCelsius_x10);
        m->temperatureCelsius_x10->internal = opt(tok()); m->temperatureCelsius_x10->external = opt(tok());
        m->temperatureCelsius_x10->custom1 = opt(tok()); m->temperatureCelsius_x10->custom2 = opt(tok());
    }
    m->humidityPercentage = opt(tok());
    if (!absent(tok())) {
        m->milliVolts = calloc(1, sizeof *m->milliVolts);
        m->milliVolts->battery = opt(tok()); m->milliVolts->solar = opt(tok());
        m->milliVolts->custom1 = opt(tok()); m->milliVolts->custom2 = opt(tok());
    }
    if (!absent(t = tok())) {
        m->counts = calloc(1, sizeof *m->counts);
        for (int k = atoi(t); k > 0; k--) ASN_SEQUENCE_ADD(&m->counts->list, opt(tok()));
    }
    m->gnssPowerSaveState = opt(tok());
    if (!absent(t = tok())) { m->customData = calloc(1, sizeof *m->customData); octets(m->customData, t); }
    return m;
}

static void dump(Telemetry_t *m) {
    phex(m->payloadCallsign.buf, m->payloadCallsign.size);
    printf("%ld %ld %ld %ld %ld ", m->sequenceNumber, m->timeOfDaySeconds, m->latitude, m->longitude, m->altitudeMeters);
    if (!m->extraSensors) printf("- ");
    else {
        printf("%d ", m->extraSensors->list.count);
        for (int i = 0; i < m->extraSensors->list.count; i++) {
            struct AdditionalSensorType *s = m->extraSensors->list.array[i];
            if (s->name) phex(s->name->buf, s->name->size); else printf("- ");
            if (!s->values) { printf("- "); continue; }
            struct CustomFieldValues *v = s->values;
            switch (v->present) {
            case CustomFieldValues_PR_horusStr: printf("str "); phex(v->choice.horusStr.buf, v->choice.horusStr.size); break;
            case CustomFieldValues_PR_horusInt:
                printf("int %d ", v->choice.horusInt.list.count);
                for (int k = 0; k < v->choice.horusInt.list.count; k++) printf("%ld ", *v->choice.horusInt.list.array[k]);
                break;
            case CustomFieldValues_PR_horusReal:
                printf("real %d ", v->choice.horusReal.list.count);
                for (int k = 0; k < v->choice.horusReal.list.count; k++) { unsigned long long u; memcpy(&u, v->choice.horusReal.list.array[k], 8); printf("%016llx ", u); }
                break;
            case CustomFieldValues_PR_horusBool: {
                BitFlags_t *b = &v->choice.horusBool;
                printf("bool %d%d%d%d%d%d%d%d ", !!b->b0, !!b->b1, !!b->b2, !!b->b3, !!b->b4, !!b->b5, !!b->b6, !!b->b7); break; }
            default: printf("none ");
            }
        }
    }
    popt(m->velocityHorizontalKilometersPerHour); popt(m->gnssSatellitesVisible); popt(m->ascentRateCentimetersPerSecond); popt(m->pressurehPa_x10);
    struct TemperatureSensors *t = m->temperatureCelsius_x10;
    if (!t) printf("- "); else { printf("+ "); popt(t->internal); popt(t->external); popt(t->custom1); popt(t->custom2); }
    popt(m->humidityPercentage);
    struct MilliVoltSensors *v = m->milliVolts;
    if (!v) printf("- "); else { printf("+ "); popt(v->battery); popt(v->solar); popt(v->custom1); popt(v->custom2); }
    if (!m->counts) printf("- ");
    else { printf("%d ", m->counts->list.count); for (int k = 0; k < m->counts->list.count; k++) printf("%ld ", *m->counts->list.array[k]); }
    if (m->gnssPowerSaveState) printf("%ld ", *m->gnssPowerSaveState); else printf("- ");
    if (m->customData) phex(m->customData->buf, m->customData->size); else printf("- ");
}

static Telemetry_t *decode(const uint8_t *b, size_t n) {
    uint8_t *exact = malloc(n);            /* no octet beyond the input is ours */
    memcpy(exact, b, n);
    Telemetry_t *m = NULL;
    asn_dec_rval_t r = uper_decode_complete(NULL, &asn_DEF_Telemetry, (void **)&m, exact, n);
    free(exact);
    if (r.code != RC_OK) { ASN_STRUCT_FREE(asn_DEF_Telemetry, m); return NULL; }
    return m;
}
static long encode(Telemetry_t *m, uint8_t *out, size_t n) {
    asn_enc_rval_t r = uper_encode_to_buffer(&asn_DEF_Telemetry, NULL, m, out, n);
    return r.encoded < 0 ? -1 : (r.encoded + 7) / 8;
}

int main(void) {
    static char line[1 << 20];
    static uint8_t buf[1 << 18], out[1 << 18];
    while (fgets(line, sizeof line, stdin)) {
        char *c = strtok_r(line, " \n", &save);
        if (!c) continue;
        if (*c == 'E') {
            Telemetry_t *m = build();
            long n = encode(m, out, sizeof out);
            if (n < 0) printf("FAIL"); else { printf("B "); phex(out, n); }
            ASN_STRUCT_FREE(asn_DEF_Telemetry, m);
        } else if (*c == 'D') {
            size_t n = unhex(tok() + 1, buf);
            Telemetry_t *m = decode(buf, n);
            if (!m) printf("FAIL");
            else {
                long k = encode(m, out, sizeof out);
                printf("M "); if (k < 0) printf("- "); else phex(out, k);
                dump(m); ASN_STRUCT_FREE(asn_DEF_Telemetry, m);
            }
        } else {
            size_t n = unhex(tok() + 1, buf);
            printf("T ");
            for (size_t k = 0; k < n; k++) { Telemetry_t *m = decode(buf, k); if (m) { printf("%zu ", k); ASN_STRUCT_FREE(asn_DEF_Telemetry, m); } }
        }
        printf("\n"); fflush(stdout);
    }
    return 0;
}
