From 03a2285e2058279f2cf895f0c7dce7e74e880d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:23 +0000
Subject: [PATCH 01/32] fix: keep RTTY extraction inside rx_bits and ascii_out
 when '*' is near the end of a maximum length sentence

---
 src/horus_api.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 01cd1a9..f0b134d 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -334,7 +334,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     const int nfield = ascii_bits;                      /* 7 or 8 bit ASCII                    */
     const int npad   = stop_bits + 1;                   /* N stop bits + start bit between characters */
     int st = uw_loc;                                    /* first bit of first char        */
-    int en = st + hstates->max_packet_len - nfield;          /* last bit of max length packet  */
+    int en = st + hstates->max_packet_len - npad;            /* last bit of max length packet  */
 
     if (en > hstates->rx_bits_len){
         if (hstates->verbose) {
@@ -391,7 +391,9 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
                 fprintf(stderr, "  begin endpacket\n");
             }
             // Only process up to the next 5 characters (checksum + line ending)
-            en = i + (ascii_bits+stop_bits+1)*5;
+            if (en > i + (ascii_bits+stop_bits+1)*5) {
+                en = i + (ascii_bits+stop_bits+1)*5;
+            }
         }
 
         /* build up output array, really only need up to tx crc but
@@ -432,7 +434,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
             
     /* make sure we don't overrun storage */
     
-    if(nout > horus_get_max_ascii_out_len(hstates)){
+    if(nout >= horus_get_max_ascii_out_len(hstates)){
         return 0;
     }
 
@@ -825,13 +827,13 @@ int horus_get_max_demod_in(struct horus *hstates) {
 int horus_get_max_ascii_out_len(struct horus *hstates) {
     assert(hstates != NULL);
     if (hstates->mode == HORUS_MODE_RTTY_7N1) {
-        return hstates->max_packet_len/9;     /* 7 bit ASCII, plus 3 sync bits */
+        return hstates->max_packet_len/9+1;     /* 7 bit ASCII, plus 3 sync bits */
     }
     if (hstates->mode == HORUS_MODE_RTTY_7N2) {
-        return hstates->max_packet_len/10;     /* 7 bit ASCII, plus 3 sync bits */
+        return hstates->max_packet_len/10+1;     /* 7 bit ASCII, plus 3 sync bits */
     }
     if (hstates->mode == HORUS_MODE_RTTY_8N2) {
-        return hstates->max_packet_len/11;     /* 8 bit ASCII, plus 3 sync bits */
+        return hstates->max_packet_len/11+1;     /* 8 bit ASCII, plus 3 sync bits */
     }
     if (hstates->mode == HORUS_MODE_BINARY_V1) {
         //return (HORUS_BINARY_V1_NUM_UNCODED_PAYLOAD_BYTES*2+1);     /* Hexadecimal encoded */
-- 
2.43.0


From 5047df95dad5888f0878b34d76dbfc2691fcb436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:23 +0000
Subject: [PATCH 02/32] fix: do not look past the received characters when
 skipping the leading $s of an RTTY sentence

---
 src/horus_api.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/horus_api.c b/src/horus_api.c
index f0b134d..7d2d8c5 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -374,6 +374,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
         if (!endpacket && (char_dec == 42)) {
             endpacket = 1;
             rtty_start = 0;
+            *pout = (char)char_dec; /* the search below must stop at the '*' */
             // Find the end of the $$s
             for(k = 0; k<8; k++){
                 if(ascii_out[k] != 36){
-- 
2.43.0


From 362cda20859127a44f4bb668d68b2096c7caed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:23 +0000
Subject: [PATCH 03/32] fix: clear the unique words near a decoded RTTY
 sentence relative to its own position, so it is not decoded twice

---
 src/horus_api.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 7d2d8c5..42b350d 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -714,8 +714,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int uw_loc_found = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - uw_loc_found < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -731,8 +732,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int uw_loc_found = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - uw_loc_found < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -747,8 +749,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int uw_loc_found = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - uw_loc_found < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
-- 
2.43.0


From 971b0a0b05179d8464a06481601237f65a840208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:23 +0000
Subject: [PATCH 04/32] fix: reject RTTY checksums that contain characters
 other than hexadecimal digits

---
 src/horus_api.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 42b350d..1f75edf 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -409,15 +409,21 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
 
     //fprintf(stderr, "\n\ntx CRC...\n");
     if (endpacket && (pout > (ptx_crc+3))) {
+        int crc_valid = 1;
         tx_crc = 0;
         for(i=0; i<4; i++) {
             tx_crc <<= 4;
-            tx_crc |= hex2int(ptx_crc[i]);
+            int digit = hex2int(ptx_crc[i]);
+            if (digit < 0) {
+                crc_valid = 0; /* not a hexadecimal digit */
+            } else {
+                tx_crc |= digit;
+            }
             if (hstates->verbose){
                 fprintf(stderr, "ptx_crc[%d] %c 0x%02X tx_crc: 0x%04X\n", i, ptx_crc[i], hex2int(ptx_crc[i]), tx_crc);
             }
         }
-        crc_ok = (tx_crc == rx_crc);
+        crc_ok = crc_valid && (tx_crc == rx_crc);
         *(ptx_crc+4) = 0;  /* terminate ASCII string */
 
         if (crc_ok) {
-- 
2.43.0


From 4e62622a148c3c0afa834a3c9b4154e6e4459970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:23 +0000
Subject: [PATCH 05/32] fix: free the soft bit and spectrum buffers when a
 receiver is closed

---
 src/fsk.c       | 1 +
 src/horus_api.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/fsk.c b/src/fsk.c
index f88bb9c..7ed202d 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -251,6 +251,7 @@ struct FSK * fsk_create_hbr(int Fs, int Rs, int M, int P, int Nsym, int tx_f1, i
 
 void fsk_destroy(struct FSK *fsk){
     free(fsk->f_dc);
+    free(fsk->Sf);
     free(fsk->fft_cfg);
     free(fsk->stats);
     free(fsk->hann_table);
diff --git a/src/horus_api.c b/src/horus_api.c
index 1f75edf..14828c9 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -259,6 +259,7 @@ void horus_close (struct horus *hstates) {
     assert(hstates != NULL);
     fsk_destroy(hstates->fsk);
     free(hstates->rx_bits);
+    free(hstates->soft_bits);
     free(hstates);
 }
 
-- 
2.43.0


From f7a526318c484a10c7f347873f3081fb8e919fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:23 +0000
Subject: [PATCH 06/32] fix: do not read past the end of the received packet
 when its parity ends on a byte boundary

---
 src/horus_l2.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/horus_l2.c b/src/horus_l2.c
index 96cb0d1..d0af42d 100644
--- a/src/horus_l2.c
+++ b/src/horus_l2.c
@@ -319,6 +319,7 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
     #endif
 
     pin = input_rx_data + sizeof(uw) + num_payload_data_bytes;
+    unsigned char *pin_end = input_rx_data + horus_l2_get_num_tx_data_bytes(num_payload_data_bytes);
 
     /* Read input data bits one at a time.  When we have 12 read 11 parity bits. Golay decode.
        Write decoded (output data) bits every time we have 8 of them. */
@@ -368,7 +369,7 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
                 if (i != 10)
                     ingolay <<=1;
                 nparitybits++;
-                if ((nparitybits % 8) == 0) {
+                if ((nparitybits % 8) == 0 && pin < pin_end) {
                     /* OK grab a new byte */
                     paritybyte = *pin++;
                     #ifdef DEBUG0
@@ -426,7 +427,7 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
             if (i != 10)
                 golayparity <<=1;
             nparitybits++;
-            if ((nparitybits % 8) == 0) {
+            if ((nparitybits % 8) == 0 && pin < pin_end) {
                 /* OK grab a new byte */
                 paritybyte = *pin++;
                 #ifdef DEBUG0
-- 
2.43.0


From be29414725e8fe5390cc7a0c06b6c26011ab0ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:23 +0000
Subject: [PATCH 07/32] fix: horus_demod writes decoded packets to the output
 file it was given

---
 src/horus_demod.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/horus_demod.c b/src/horus_demod.c
index 45b3ac9..8acc9ba 100644
--- a/src/horus_demod.c
+++ b/src/horus_demod.c
@@ -247,15 +247,15 @@ int main(int argc, char *argv[]) {
         }
 
         if (horus_rx(hstates, ascii_out, demod_in, quadrature)) {
-            fprintf(stdout, "%s", ascii_out);
+            fprintf(fout, "%s", ascii_out);
             if (crc_results) {
                 if (horus_crc_ok(hstates)) {
-                    fprintf(stdout, "  CRC OK");
+                    fprintf(fout, "  CRC OK");
                 } else {
-                    fprintf(stdout, "  CRC BAD");
+                    fprintf(fout, "  CRC BAD");
                 }
             }
-            fprintf(stdout, "\n");
+            fprintf(fout, "\n");
         }
         
         if (enable_stats && stats_ctr <= 0) {
-- 
2.43.0


From 520ed38be32876dc28dd1fabb6e500b9bce559fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 08/32] fix: add_samples demodulates a complete block as soon
 as it has all of its samples

---
 horusdemodlib/demod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 5b234e5..28ba4a1 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -243,7 +243,7 @@ class HorusLib():
         while _processing:
             # Process data until we have less than _nin samples.
             _nin = int(self.nin*(self.audio_sample_rate/self.modem_sample_rate)) * (2 if self.stereo_iq else 1)
-            if len(self.input_buffer) > (_nin * 2):
+            if len(self.input_buffer) >= (_nin * 2):
                 # Demodulate
                 _frame = self.demodulate(self.input_buffer[:(_nin*2)])
 
-- 
2.43.0


From 87d131631a57a4daba0159ce776ab871f9a5af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 09/32] fix: never let horus_rx read past the end of the
 samples given to demodulate

---
 horusdemodlib/demod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 28ba4a1..388430e 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -182,6 +182,10 @@ class HorusLib():
         (demod_in, self.resampler_state) = audioop.ratecv(demod_in, 2, 1+int(self.stereo_iq), self.audio_sample_rate, self.modem_sample_rate, self.resampler_state)
 
 
+        # horus_rx always reads nin samples, so make sure that many are there
+        # (the resampler may come up one short, and the caller may be at the end of a file).
+        demod_in = demod_in.ljust(self.nin * 2 * (1 + int(self.stereo_iq)), b'\x00')
+
         audio_id_data = _horus_api_cffi.ffi.new("char[]",demod_in)
         data_in = _horus_api_cffi.ffi.cast( # cast bytes to short
             "short *",
-- 
2.43.0


From 7a24d945a448d985f95c5ef8ecbf3032341129d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 10/32] fix: a line that is not hexadecimal no longer stops the
 uploader

---
 horusdemodlib/decoder.py  | 2 +-
 horusdemodlib/uploader.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index f53cd2e..5b30b15 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -360,7 +360,7 @@ def hex_to_bytes(data:str) -> bytes:
     try:
         _binary_string = codecs.decode(data, 'hex')
         return _binary_string
-    except TypeError as e:
+    except (TypeError, ValueError) as e:
         logging.error("Error parsing line as hexadecimal (%s): %s" % (str(e), data))
         return None
 
diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index bf0f4df..df0c6c6 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -214,7 +214,7 @@ def main():
                 logging.info(f"Received raw binary packet: {data}")
                 try:
                     _binary_string = codecs.decode(data, 'hex')
-                except TypeError as e:
+                except (TypeError, ValueError) as e:
                     logging.error("Error parsing line as hexadecimal (%s): %s" % (str(e), data))
                     continue
 
-- 
2.43.0


From edc330010ae62538adf47cf7dd655a946fa06562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 11/32] fix: modem statistics with unusable values no longer
 stop the uploader

---
 horusdemodlib/uploader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index df0c6c6..e8c45d9 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -207,7 +207,10 @@ def main():
             
             elif data.startswith('{'):
                 # Possibly a line of modem statistics, attempt to decode it.
-                demod_stats.update(data)
+                try:
+                    demod_stats.update(data)
+                except Exception as e:
+                    logging.error(f"Error processing modem statistics: {e}")
 
             else:
                 # Handle binary packets
-- 
2.43.0


From 8031ad4cfc39c6180464114749d963eecbcdc089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 12/32] fix: the uploader exits cleanly when started with
 --noupload

---
 horusdemodlib/sondehubamateur.py | 4 ++++
 horusdemodlib/uploader.py        | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/sondehubamateur.py b/horusdemodlib/sondehubamateur.py
index a8a76e8..20612b4 100644
--- a/horusdemodlib/sondehubamateur.py
+++ b/horusdemodlib/sondehubamateur.py
@@ -89,6 +89,10 @@ class SondehubAmateurUploader(object):
         # Input Queue.
         self.input_queue = Queue()
 
+        # Queue processing thread, not started if we are inhibited.
+        self.input_processing_running = False
+        self.input_process_thread = None
+
         # Record of when we last uploaded a user station position to Sondehub.
         self.last_user_position_upload = 0
 
diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index e8c45d9..cf1bd1d 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -289,7 +289,8 @@ def main():
         logging.info("Caught CTRL-C, exiting.")
 
     sondehub_uploader.close()
-    sondehub_uploader.input_process_thread.join()
+    if sondehub_uploader.input_process_thread:
+        sondehub_uploader.input_process_thread.join()
 
 class HorusUploaderTests(unittest.TestCase):
     class mockArgs():
-- 
2.43.0


From 4ef989b8495221309bc5123e975fcde12b688674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 13/32] fix: upload telemetry that is still queued when the
 SondeHub uploader is closed

---
 horusdemodlib/sondehubamateur.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/sondehubamateur.py b/horusdemodlib/sondehubamateur.py
index 20612b4..c510f52 100644
--- a/horusdemodlib/sondehubamateur.py
+++ b/horusdemodlib/sondehubamateur.py
@@ -166,7 +166,10 @@ class SondehubAmateurUploader(object):
         """
         self.log_info("Started Sondehub Amateur Uploader Thread.")
 
-        while self.input_processing_running:
+        while True:
+
+            # If we have been asked to stop, upload what is still in the queue first.
+            _last_pass = not self.input_processing_running
 
             # Process everything in the queue.
             _to_upload = []
@@ -181,6 +184,9 @@ class SondehubAmateurUploader(object):
             if len(_to_upload) > 0:
                 self.upload_telemetry(_to_upload)
 
+            if _last_pass:
+                break
+
             # If we haven't uploaded our station position recently, re-upload it.
             if (
                 time.time() - self.last_user_position_upload
-- 
2.43.0


From 5c6b9fb98802164393a80097746e1a0d838f90a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 14/32] fix: clip minutes and ascent rate correctly in
 create_horus_v2_packet

---
 horusdemodlib/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horusdemodlib/encoder.py b/horusdemodlib/encoder.py
index 97e19b8..820b579 100644
--- a/horusdemodlib/encoder.py
+++ b/horusdemodlib/encoder.py
@@ -218,7 +218,7 @@ class Encoder():
             minutes = int(minutes)
             if minutes < 0:
                 minutes = 0
-            elif minutes < 59:
+            elif minutes > 59:
                 minutes = 59
 
             seconds = int(seconds)
@@ -283,7 +283,7 @@ class Encoder():
         # Ascent rate is in the range -327.68 to 327.67 m/s
         ascent_rate_100 = int(ascent_rate*100)
         if ascent_rate_100 < -32768:
-            ascent_rate_100 = 32768
+            ascent_rate_100 = -32768
         elif ascent_rate_100 > 32767:
             ascent_rate_100 = 32767
 
-- 
2.43.0


From 137afd62eb5af80dbef3c22b07cc185d0616af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 15/32] fix: create_horus_v2_packet defaults to the time of the
 call, not of the import

---
 horusdemodlib/encoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/encoder.py b/horusdemodlib/encoder.py
index 820b579..59d6225 100644
--- a/horusdemodlib/encoder.py
+++ b/horusdemodlib/encoder.py
@@ -172,7 +172,7 @@ class Encoder():
             payload_id = 256,
             sequence_number = 0,
             # Packet time, provided as a datetime object
-            time_dt = datetime.datetime.now(datetime.timezone.utc),
+            time_dt = None,
             # Optional - provide time as hours/minutes/seconds
             hours = None,
             minutes = None,
@@ -228,6 +228,8 @@ class Encoder():
                 seconds = 59
         else:
             # No separate time data provided
+            if time_dt is None:
+                time_dt = datetime.datetime.now(datetime.timezone.utc)
             # Try and extract HHMMSS from datetime object
             try:
                 hours = int(time_dt.hour)
-- 
2.43.0


From 2c857978951ef3343dfb2e152e51a907ffac8d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 16/32] fix: decode_packet accepts the Horus Binary v3 format
 when it is given explicitly

---
 horusdemodlib/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index 5b30b15..91c4fe2 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -134,6 +134,8 @@ def decode_packet(data:bytes, packet_format:dict = None, ignore_crc:bool = False
     if packet_format['name'] != "Horus Binary v3":
         # check CRC first as it might be horus binary v3 that hasn't completed yet
         _crc_ok = check_packet_crc(data, checksum=packet_format['checksum'])
+    else:
+        _crc_ok = check_packet_crc(data, checksum=packet_format['checksum'], tail=False)
     if (not _crc_ok) and (not ignore_crc):
         raise ValueError("Decoder - CRC Failure.")
     else:
-- 
2.43.0


From 09f6fb104d4fbb90e2f26c6af2153c69c2be0754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 17/32] fix: a Horus Binary v3 packet without a valid altitude
 is not an error in telem_to_sondehub

---
 horusdemodlib/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/utils.py b/horusdemodlib/utils.py
index 6d89c32..c8face3 100644
--- a/horusdemodlib/utils.py
+++ b/horusdemodlib/utils.py
@@ -85,6 +85,10 @@ def telem_to_sondehub(telemetry, metadata=None, check_time=True):
     _output["frame"] = telemetry["sequence_number"]
 
     # Position
+    if "altitude" not in telemetry:
+        logging.error("SondeHub Data Reformatter - Payload does not have a valid altitude. Not uploading.")
+        return None
+
     _output["lat"] = telemetry["latitude"]
     _output["lon"] = telemetry["longitude"]
     _output["alt"] = telemetry["altitude"]
-- 
2.43.0


From 3cdedcff92168b8a14836b67bea574c3c04168f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 18/32] fix: reject latitudes and longitudes that are not a
 number

---
 horusdemodlib/delegates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/delegates.py b/horusdemodlib/delegates.py
index d6ba793..c528584 100644
--- a/horusdemodlib/delegates.py
+++ b/horusdemodlib/delegates.py
@@ -92,7 +92,7 @@ def decode_degree_float(data:float) -> str:
     if type(data) != float:
         raise ValueError("decimal_degrees - Invalid input type.")
 
-    if (data < -180.0) or (data > 180.0):
+    if not (-180.0 <= data <= 180.0):
         raise ValueError(f"decimal_degrees - Value ({data}) out of range -180 - 180.")
 
     return (data, f"{data:.5f}")
-- 
2.43.0


From 1c2a16593d6a5c12b51460dac01cce655225eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 19/32] fix: an unparseable custom field list download is
 rejected, and does not replace the local copy

---
 horusdemodlib/payloads.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index b068cb3..d52a9d2 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -287,6 +287,13 @@ def download_latest_custom_field_list(url=HORUS_CUSTOM_FIELD_URL, filename=None,
         logging.error("Downloaded custom field list is invalid.")
         return None
 
+    try:
+        if type(json.loads(_r.text)) != dict:
+            raise ValueError("not a JSON object")
+    except Exception as e:
+        logging.error("Downloaded custom field list is invalid: %s" % str(e))
+        return None
+
     _custom_field_list = parse_custom_field_list(_r.text)
 
     if filename != None:
-- 
2.43.0


From b8a4d0487adeb528c6f34e0f8eea950d91068c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 20/32] fix: reject UKHAS sentences with NaN, infinite or
 out-of-range positions

---
 horusdemodlib/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index 91c4fe2..97d97d0 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -430,6 +430,10 @@ def parse_ukhas_string(sentence:str) -> dict:
     #if _latitude == 0.0 or _longitude == 0.0:
     #    raise ValueError("Could not parse RTTY Sentence - Zero Lat/Long.")
 
+    # Reject positions outside of the range the binary decoder accepts. (This also catches NaN and infinities.)
+    if not (abs(_latitude) <= 180.0 and abs(_longitude) <= 180.0):
+        raise ValueError("Could not parse RTTY Sentence - Invalid Latitude/Longitude.")
+
     # Place a limit on the altitude field. We generally store altitude on the payload as a uint16, so it shouldn't fall outside these values.
     if _altitude > 65535 or _altitude < 0:
         raise ValueError("Could not parse RTTY Sentence - Invalid Altitude.")
-- 
2.43.0


From 896309c54647d90f463f753177a4286b5e49583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 21/32] fix: fsk_mod sends the last symbols when the input does
 not fill a whole block

---
 src/fsk_mod.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fsk_mod.c b/src/fsk_mod.c
index 865d5fc..0e6535a 100644
--- a/src/fsk_mod.c
+++ b/src/fsk_mod.c
@@ -37,7 +37,7 @@
 int main(int argc,char *argv[]){
     struct FSK *fsk;
     int Fs,Rs,f1,fs,M;
-    int i;
+    int i, nbits, nout;
     int p, user_p = 0;
     FILE *fin,*fout;
     uint8_t *bitbuf;
@@ -102,13 +102,15 @@ int main(int argc,char *argv[]){
     rawbuf = (int16_t*)malloc(sizeof(int16_t)*fsk->N);
     modbuf = (float*)malloc(sizeof(float)*fsk->N);
     
-    /* Modulate! */
-    while( fread(bitbuf,sizeof(uint8_t),fsk->Nbits,fin) == fsk->Nbits ){
+    /* Modulate! The last block may be incomplete: pad it, but only send the symbols we were given */
+    while( (nbits = fread(bitbuf,sizeof(uint8_t),fsk->Nbits,fin)) > 0 ){
+        memset(&bitbuf[nbits], 0, fsk->Nbits - nbits);
         fsk_mod(fsk,modbuf,bitbuf);
-        for(i=0; i<fsk->N; i++){
+        nout = ((nbits*fsk->Nsym + fsk->Nbits - 1)/fsk->Nbits)*fsk->Ts;
+        for(i=0; i<nout; i++){
 			rawbuf[i] = (int16_t)(modbuf[i]*(float)FDMDV_SCALE);
 		}
-        fwrite(rawbuf,sizeof(int16_t),fsk->N,fout);
+        fwrite(rawbuf,sizeof(int16_t),nout,fout);
         
 		if(fin == stdin || fout == stdin){
 			fflush(fin);
-- 
2.43.0


From 45e05f21fe98a0b603c931430fd97692a2310b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 22/32] fix: an unusable modem statistics update leaves the
 statistics unchanged

---
 horusdemodlib/demodstats.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/horusdemodlib/demodstats.py b/horusdemodlib/demodstats.py
index 9c37cb0..f4f9a7c 100644
--- a/horusdemodlib/demodstats.py
+++ b/horusdemodlib/demodstats.py
@@ -11,6 +11,7 @@
 import argparse
 import json
 import logging
+import math
 import socket
 import sys
 import time
@@ -92,12 +93,22 @@ class FSKDemodStats(object):
         else:
             return
 
+        if type(_data) != dict:
+            self.log_error("Invalid Statistics - %s" % str(_data))
+            return
+
         # Check for required fields in incoming dictionary.
         for _field in self.FSK_STATS_FIELDS:
             if _field not in _data:
                 self.log_error("Missing Field %s" % _field)
                 return
 
+        # Check all values are usable before changing anything.
+        for _field in ['EbNodB', 'ppm', 'f1_est', 'f2_est', 'f3_est', 'f4_est']:
+            if _field in _data and not (type(_data[_field]) in [int, float] and math.isfinite(_data[_field])):
+                self.log_error("Invalid Field %s - %s" % (_field, str(_data[_field])))
+                return
+
         # Now we can process the data.
         _time = time.time()
         self.fft = _data['samp_fft']
-- 
2.43.0


From 0e7ff8e84199113aa9af13666d3df279cda16887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 23/32] fix: a malformed custom field definition is skipped and
 does not hide the others

---
 horusdemodlib/payloads.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index d52a9d2..0508cd3 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -197,12 +197,20 @@ def parse_custom_field_list(text_data):
         for _payload in _field_data:
             _data = _field_data[_payload]
 
-            if ("struct" in _data) and ("fields" in _data):
+            if (type(_data) == dict) and ("struct" in _data) and ("fields" in _data):
                 # Check the struct value has the right length
                 try:
                     _structsize = struct.calcsize(_data["struct"])
 
                     if _structsize == HORUS_CUSTOM_FIELD_LENGTH:
+                        # Check there is a name and a type for every value in the struct
+                        if (type(_data["fields"]) != list) or (len(_data["fields"]) != len(struct.unpack(_data["struct"], bytes(_structsize)))):
+                            raise ValueError("fields do not match the struct")
+
+                        for _field in _data["fields"]:
+                            if (type(_field) != list) or (len(_field) < 2) or (type(_field[0]) != str) or (type(_field[1]) != str):
+                                raise ValueError(f"invalid field {_field}")
+
                         _custom_field_list[_payload] = {
                             "struct": _data["struct"],
                             "fields": _data["fields"]
-- 
2.43.0


From f96f9081173ef64fe603ea5d779e8aab7867c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 24/32] fix: a line that is not valid UTF-8 no longer stops the
 uploader

---
 horusdemodlib/uploader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index cf1bd1d..3e7f25a 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -145,6 +145,10 @@ def main():
 
     demod_stats = FSKDemodStats(peak_hold=True)
 
+    # Corrupted (or 8-bit) RTTY text may not be valid UTF-8. Such a line should be rejected, not stop us.
+    if hasattr(sys.stdin, "reconfigure"):
+        sys.stdin.reconfigure(errors="replace")
+
     logging.info("Started Horus Demod Uploader. Hit CTRL-C to exit.")
     # Main loop
     try:
-- 
2.43.0


From e7655f706514f075830886a8fb68fd7e317879c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 25/32] fix: a short RTTY sentence is no longer dropped because
 of 8-bit leftovers behind it in the buffer

---
 horusdemodlib/demod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 388430e..bd202cc 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -215,7 +215,7 @@ class HorusLib():
             # Ascii
             try:
                 # Same thing here - we might have multiple bits of data
-                data_out = data_out.decode("ascii").split('\0')[0]
+                data_out = data_out.split(b'\0')[0].decode("ascii")
             except Exception as e:
                 logging.error(f"Couldn't decode ASCII - {str(e)} - {str(data_out)}")
                 data_out = ""
-- 
2.43.0


From 694e5b233f6debbbc9b2779ecbe07e395dba6f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 26/32] fix: audio at other sample rates is no longer padded or
 cut at block boundaries

---
 horusdemodlib/demod.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index bd202cc..1f4bd72 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -122,7 +122,8 @@ class HorusLib():
 
         self.callback = callback
 
-        self.input_buffer = bytearray(b"")
+        self.input_buffer = bytearray(b"") # audio as received, not resampled yet (at most part of a sample)
+        self.modem_buffer = bytearray(b"") # 48khz audio, not demodulated yet
 
         
 
@@ -178,10 +179,15 @@ class HorusLib():
         demod_in : bytes
             16bit, signed for audio in. You'll need .nin frames in to work correctly.
         """
-        # resample to 48khz
-        (demod_in, self.resampler_state) = audioop.ratecv(demod_in, 2, 1+int(self.stereo_iq), self.audio_sample_rate, self.modem_sample_rate, self.resampler_state)
+        return self._demodulate(self._resample(demod_in))
 
+    def _resample(self, samples: bytes) -> bytes:
+        """ Resample audio to 48khz """
+        (samples, self.resampler_state) = audioop.ratecv(samples, 2, 1+int(self.stereo_iq), self.audio_sample_rate, self.modem_sample_rate, self.resampler_state)
+        return samples
 
+    def _demodulate(self, demod_in: bytes) -> Frame:
+        """ Demodulates 48khz audio, into bytes output. """
         # horus_rx always reads nin samples, so make sure that many are there
         # (the resampler may come up one short, and the caller may be at the end of a file).
         demod_in = demod_in.ljust(self.nin * 2 * (1 + int(self.stereo_iq)), b'\x00')
@@ -242,17 +248,23 @@ class HorusLib():
         # Add samples to input buffer
         self.input_buffer.extend(samples)
 
+        # Resample everything that has been received completely, so that the modem always gets exactly nin samples.
+        _sample_size = 2 * (2 if self.stereo_iq else 1)
+        _complete = len(self.input_buffer) - len(self.input_buffer) % _sample_size
+        self.modem_buffer.extend(self._resample(self.input_buffer[:_complete]))
+        self.input_buffer = self.input_buffer[_complete:]
+
         _processing = True
         _frame = None
         while _processing:
             # Process data until we have less than _nin samples.
-            _nin = int(self.nin*(self.audio_sample_rate/self.modem_sample_rate)) * (2 if self.stereo_iq else 1)
-            if len(self.input_buffer) >= (_nin * 2):
+            _nin = self.nin * (2 if self.stereo_iq else 1)
+            if len(self.modem_buffer) >= (_nin * 2):
                 # Demodulate
-                _frame = self.demodulate(self.input_buffer[:(_nin*2)])
+                _frame = self._demodulate(bytes(self.modem_buffer[:(_nin*2)]))
 
                 # Advance sample buffer.
-                self.input_buffer = self.input_buffer[(_nin*2):]
+                self.modem_buffer = self.modem_buffer[(_nin*2):]
 
                 # If we have decoded a packet, send it on to the callback
                 if len(_frame.data) > 0:
-- 
2.43.0


From 936686298e4bd1332e9435d7621fe749f491eff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 27/32] fix: the C v3 encoder gives subnormal reals their own
 value

---
 horusbinaryv3/clib/REAL.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusbinaryv3/clib/REAL.c b/horusbinaryv3/clib/REAL.c
index f1d0665..0243baf 100644
--- a/horusbinaryv3/clib/REAL.c
+++ b/horusbinaryv3/clib/REAL.c
@@ -747,6 +747,10 @@ asn_double2REAL(REAL_t *st, double dbl_value) {
 
 	/* Remove parts of the exponent, leave mantissa and explicit 1. */
 	dscr[0] = 0x10 | (dscr[0] & 0x0f);
+	if(expval < -1022) {	/* A subnormal number has no implicit 1 */
+		dscr[0] &= 0x0f;
+		expval = -1022;
+	}
 
 	/* Adjust exponent in a very unobvious way */
 	expval -= 8 * ((mstop - dscr) + 1) - 4;
-- 
2.43.0


From 4e1d575221da6a254e1c831c6baa6eb40f263ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 28/32] fix: v3 sensor strings are coded as X.691 and the C
 library code them

---
 horusdemodlib/decoder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index 97d97d0..6d4a60b 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -18,6 +18,14 @@ import json
 
 HORUS_ASN = asn1tools.compile_files(os.path.join(os.path.dirname(__file__), '../horusbinaryv3/HorusBinaryV3.asn1'), codec="uper")
 
+# The characters of horusStr fit into 7 bits as they are, and so that is how they are sent (X.691 30.5.4), by the
+# C library too. asn1tools would send their positions in the permitted alphabet instead.
+_asn_member = lambda members, name: next(m for m in members if m.name == name)
+_sensor_values = _asn_member(_asn_member(HORUS_ASN.types["Telemetry"]._type.root_members, "extraSensors").element_type.root_members, "values")
+_horus_str = _asn_member(_sensor_values.root_index_to_member.values(), "horusStr")
+_ascii = {c: c for c in _horus_str.permitted_alphabet.encode_map}
+_horus_str.permitted_alphabet = type(_horus_str.permitted_alphabet)(_ascii, _ascii)
+
 #
 #   Horus Binary V1 and V2 Packet Formats
 #
-- 
2.43.0


From b1b0524e2530ecd5fb53e5ae6cd5cd0b15bc5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 29/32] fix: the C v3 decoder skips additions of later message
 versions instead of failing

---
 horusbinaryv3/clib/per_opentype.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/horusbinaryv3/clib/per_opentype.c b/horusbinaryv3/clib/per_opentype.c
index f86dad7..9dc77d6 100644
--- a/horusbinaryv3/clib/per_opentype.c
+++ b/horusbinaryv3/clib/per_opentype.c
@@ -296,6 +296,7 @@ uper_sot_suck(const asn_codec_ctx_t *ctx, const asn_TYPE_descriptor_t *td,
 	(void)sptr;
 
 	while(per_get_few_bits(pd, 24) >= 0);
+	while(per_get_few_bits(pd, 1) >= 0);	/* What is left of the last 24 */
 
 	rv.code = RC_OK;
 	rv.consumed = pd->moved;
-- 
2.43.0


From e203a5b9af502fb2e8e159b5700ed27f8980fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 30/32] fix: start_eight_4fsk.sh gives decoders 7 and 8 their
 own signals' target frequencies

---
 start_eight_4fsk.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/start_eight_4fsk.sh b/start_eight_4fsk.sh
index 26de9ac..130728c 100755
--- a/start_eight_4fsk.sh
+++ b/start_eight_4fsk.sh
@@ -130,11 +130,11 @@ MFSK6_CENTRE=$(echo "$RXFREQ + $MFSK6_SIGNAL" | bc)
 
 MFSK7_LOWER=$(echo "$MFSK7_SIGNAL - $RXBANDWIDTH/2" | bc)
 MFSK7_UPPER=$(echo "$MFSK7_SIGNAL + $RXBANDWIDTH/2" | bc)
-MFSK7_CENTRE=$(echo "$RXFREQ + $MFSK6_SIGNAL" | bc)
+MFSK7_CENTRE=$(echo "$RXFREQ + $MFSK7_SIGNAL" | bc)
 
 MFSK8_LOWER=$(echo "$MFSK8_SIGNAL - $RXBANDWIDTH/2" | bc)
 MFSK8_UPPER=$(echo "$MFSK8_SIGNAL + $RXBANDWIDTH/2" | bc)
-MFSK8_CENTRE=$(echo "$RXFREQ + $MFSK6_SIGNAL" | bc)
+MFSK8_CENTRE=$(echo "$RXFREQ + $MFSK8_SIGNAL" | bc)
 
 echo "Using SDR Centre Frequency: $RXFREQ Hz."
 echo "Using MFSK1 estimation range: $MFSK1_LOWER - $MFSK1_UPPER Hz"
-- 
2.43.0


From cdbd18d46b39b648a7f2adee6707ebf3569162d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:22 +0000
Subject: [PATCH 31/32] fix: hand statistics on at once when they go to a pipe

---
 horusdemodlib/demod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 1f4bd72..927d6b1 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -391,7 +391,7 @@ def main():
                 stats_out['eye_diagram'] = eye_diagram
                 stats_out['samp_fft']=[0]*128 # broken in horus_demod.c - replicating the same output
                 if args.g:
-                    print(json.dumps(stats_out))
+                    print(json.dumps(stats_out), flush=True)
                 else:
                     sys.stderr.write(json.dumps(stats_out)+"\n")
 
-- 
2.43.0


From 0a51f74560ef0e906a8f2dc64e437aa92b318750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:22 +0000
Subject: [PATCH 32/32] fix: horus_demod: flush statistics, also when packets
 go to a file

---
 src/horus_demod.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/horus_demod.c b/src/horus_demod.c
index 8acc9ba..a3f2d24 100644
--- a/src/horus_demod.c
+++ b/src/horus_demod.c
@@ -312,6 +312,7 @@ int main(int argc, char *argv[]) {
             #endif
 
 	    fprintf(stats_outfile,"]}\n");
+            fflush(stats_outfile);
             stats_ctr = stats_loop;
         }
         stats_ctr--;
-- 
2.43.0

