From e239628c42799a7be692a25f045128eb482a13cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 01/23] fix: RTTY extraction no longer reads past the received
 bit buffer

The end of a maximum length packet was computed from the field width instead
of the padding width, so a unique word found late in the buffer made the last
characters read beyond rx_bits.
---
 src/horus_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 01cd1a9..b4fe60e 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -334,7 +334,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     const int nfield = ascii_bits;                      /* 7 or 8 bit ASCII                    */
     const int npad   = stop_bits + 1;                   /* N stop bits + start bit between characters */
     int st = uw_loc;                                    /* first bit of first char        */
-    int en = st + hstates->max_packet_len - nfield;          /* last bit of max length packet  */
+    int en = st + hstates->max_packet_len - npad;            /* one past the last data bit of max length packet */
 
     if (en > hstates->rx_bits_len){
         if (hstates->verbose) {
-- 
2.43.0


From e04c43771dd4889393e27c7688afe45b291d7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 02/23] fix: RTTY extraction stays inside the caller's text
 buffer

A '*' close to the end of a maximum length packet extended the packet past the
bit and text buffers, the terminator could be written one past the end, and
the '$' scan looked at characters that had not been received yet.
---
 src/horus_api.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index b4fe60e..2304710 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -376,7 +376,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
             rtty_start = 0;
             // Find the end of the $$s
             for(k = 0; k<8; k++){
-                if(ascii_out[k] != 36){
+                if(k >= nout || ascii_out[k] != 36){
                     rtty_start = k;
                     break;
                 }
@@ -391,7 +391,9 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
                 fprintf(stderr, "  begin endpacket\n");
             }
             // Only process up to the next 5 characters (checksum + line ending)
-            en = i + (ascii_bits+stop_bits+1)*5;
+            if (i + (ascii_bits+stop_bits+1)*5 < en) {
+                en = i + (ascii_bits+stop_bits+1)*5;
+            }
         }
 
         /* build up output array, really only need up to tx crc but
@@ -405,7 +407,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     /* if we found the end of packet flag and have enough chars to compute checksum ... */
 
     //fprintf(stderr, "\n\ntx CRC...\n");
-    if (endpacket && (pout > (ptx_crc+3))) {
+    if (endpacket && (pout > (ptx_crc+3)) && (nout < horus_get_max_ascii_out_len(hstates))) {
         tx_crc = 0;
         for(i=0; i<4; i++) {
             tx_crc <<= 4;
-- 
2.43.0


From c754a69c103fb815beb4f0b406227b9c6fb096ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 03/23] fix: RTTY checksum field must be hexadecimal

hex2int() returns -1 for any other character, which was OR-ed into the
transmitted checksum and could make it equal to the computed one.
---
 src/horus_api.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 2304710..40f5797 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -346,7 +346,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
         fprintf(stderr, "st: %d, en: %d %d %d\n", st, en, ascii_bits, stop_bits);
     }
 
-    int      i, j, k, endpacket, nout, crc_ok, rtty_start;
+    int      i, j, k, endpacket, nout, crc_ok, crc_is_hex, rtty_start;
     uint8_t  char_dec;
     char    *pout, *ptx_crc;
     uint16_t rx_crc, tx_crc;
@@ -409,14 +409,18 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     //fprintf(stderr, "\n\ntx CRC...\n");
     if (endpacket && (pout > (ptx_crc+3)) && (nout < horus_get_max_ascii_out_len(hstates))) {
         tx_crc = 0;
+        crc_is_hex = 1;
         for(i=0; i<4; i++) {
+            if (hex2int(ptx_crc[i]) < 0) {
+                crc_is_hex = 0;
+            }
             tx_crc <<= 4;
             tx_crc |= hex2int(ptx_crc[i]);
             if (hstates->verbose){
                 fprintf(stderr, "ptx_crc[%d] %c 0x%02X tx_crc: 0x%04X\n", i, ptx_crc[i], hex2int(ptx_crc[i]), tx_crc);
             }
         }
-        crc_ok = (tx_crc == rx_crc);
+        crc_ok = crc_is_hex && (tx_crc == rx_crc);
         *(ptx_crc+4) = 0;  /* terminate ASCII string */
 
         if (crc_ok) {
-- 
2.43.0


From 06de8388142f70356bd87a405e4891de0040255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 04/23] fix: layer 2 decoder no longer reads one byte past the
 packet

When the parity bits fill whole bytes (48 and 96 byte payloads) the decoder
fetched a further parity byte after the last one.
---
 src/horus_l2.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/horus_l2.c b/src/horus_l2.c
index 96cb0d1..f12b4e0 100644
--- a/src/horus_l2.c
+++ b/src/horus_l2.c
@@ -304,9 +304,7 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
     unsigned char *pin  = input_rx_data;
     int            ninbit, ingolay, ningolay, paritybyte, nparitybits;
     int            ninbyte, shift, inbit, golayparitybit, i, outbit, outbyte, noutbits, outdata;
-    #if defined(SCRAMBLER) || defined(INTERLEAVER)
     int num_tx_data_bytes = horus_l2_get_num_tx_data_bytes(num_payload_data_bytes);
-    #endif
     
     /* optional scrambler and interleaver - we dont interleave UW */
 
@@ -369,8 +367,9 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
                     ingolay <<=1;
                 nparitybits++;
                 if ((nparitybits % 8) == 0) {
-                    /* OK grab a new byte */
-                    paritybyte = *pin++;
+                    /* OK grab a new byte, if there is one left */
+                    if (pin < input_rx_data + num_tx_data_bytes)
+                        paritybyte = *pin++;
                     #ifdef DEBUG0
                     fprintf(stderr,"  Read paritybyte: 0x%02x\n", paritybyte);
                     #endif
@@ -427,8 +426,9 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
                 golayparity <<=1;
             nparitybits++;
             if ((nparitybits % 8) == 0) {
-                /* OK grab a new byte */
-                paritybyte = *pin++;
+                /* OK grab a new byte, if there is one left */
+                if (pin < input_rx_data + num_tx_data_bytes)
+                    paritybyte = *pin++;
                 #ifdef DEBUG0
                 fprintf(stderr,"  Read paritybyte: 0x%02x\n", paritybyte);
                 #endif
-- 
2.43.0


From e5a0899a2c2f34d1fb3f8573dadf787af9bdc4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 05/23] fix: closing a modem frees the spectrum and soft bit
 buffers

fsk_destroy() did not free Sf and horus_close() did not free soft_bits, so
every open/close cycle leaked about 37 kB.
---
 src/fsk.c       | 1 +
 src/horus_api.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/fsk.c b/src/fsk.c
index f88bb9c..05c5a09 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -252,6 +252,7 @@ struct FSK * fsk_create_hbr(int Fs, int Rs, int M, int P, int Nsym, int tx_f1, i
 void fsk_destroy(struct FSK *fsk){
     free(fsk->f_dc);
     free(fsk->fft_cfg);
+    free(fsk->Sf);
     free(fsk->stats);
     free(fsk->hann_table);
     free(fsk);
diff --git a/src/horus_api.c b/src/horus_api.c
index 40f5797..bacc086 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -259,6 +259,7 @@ void horus_close (struct horus *hstates) {
     assert(hstates != NULL);
     fsk_destroy(hstates->fsk);
     free(hstates->rx_bits);
+    free(hstates->soft_bits);
     free(hstates);
 }
 
-- 
2.43.0


From b84a1e3eba126c7e65bab78b358c27edf0ca1ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:22 +0000
Subject: [PATCH 06/23] fix: check the CRC of explicitly selected v3 packets
 and report the real CRC state when it is ignored

---
 horusdemodlib/decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index f53cd2e..eff1c71 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -134,10 +134,12 @@ def decode_packet(data:bytes, packet_format:dict = None, ignore_crc:bool = False
     if packet_format['name'] != "Horus Binary v3":
         # check CRC first as it might be horus binary v3 that hasn't completed yet
         _crc_ok = check_packet_crc(data, checksum=packet_format['checksum'])
+    else:
+        _crc_ok = check_packet_crc(data, checksum=packet_format['checksum'], tail=False)
     if (not _crc_ok) and (not ignore_crc):
         raise ValueError("Decoder - CRC Failure.")
     else:
-        _output['crc_ok'] = True
+        _output['crc_ok'] = _crc_ok
     
     # Report the modulation type
     if 'v1' in packet_format['name']:
-- 
2.43.0


From 26132204ef7525d9259ca846ee68f8ea895b389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 07/23] fix: NaN latitude/longitude is out of range

---
 horusdemodlib/delegates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/delegates.py b/horusdemodlib/delegates.py
index d6ba793..c528584 100644
--- a/horusdemodlib/delegates.py
+++ b/horusdemodlib/delegates.py
@@ -92,7 +92,7 @@ def decode_degree_float(data:float) -> str:
     if type(data) != float:
         raise ValueError("decimal_degrees - Invalid input type.")
 
-    if (data < -180.0) or (data > 180.0):
+    if not (-180.0 <= data <= 180.0):
         raise ValueError(f"decimal_degrees - Value ({data}) out of range -180 - 180.")
 
     return (data, f"{data:.5f}")
-- 
2.43.0


From cf3199e951e81ca3b1603450270c7bfc88cec17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:09 +0000
Subject: [PATCH 08/23] fix: v2 encoder clips minutes over 59 and large descent
 rates

---
 horusdemodlib/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horusdemodlib/encoder.py b/horusdemodlib/encoder.py
index 97e19b8..820b579 100644
--- a/horusdemodlib/encoder.py
+++ b/horusdemodlib/encoder.py
@@ -218,7 +218,7 @@ class Encoder():
             minutes = int(minutes)
             if minutes < 0:
                 minutes = 0
-            elif minutes < 59:
+            elif minutes > 59:
                 minutes = 59
 
             seconds = int(seconds)
@@ -283,7 +283,7 @@ class Encoder():
         # Ascent rate is in the range -327.68 to 327.67 m/s
         ascent_rate_100 = int(ascent_rate*100)
         if ascent_rate_100 < -32768:
-            ascent_rate_100 = 32768
+            ascent_rate_100 = -32768
         elif ascent_rate_100 > 32767:
             ascent_rate_100 = 32767
 
-- 
2.43.0


From 68548d641b63d442c74c0e0b6f90f1d7f92dc2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 09/23] fix: a custom field entry that is not an object no
 longer drops the entries after it

---
 horusdemodlib/payloads.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index b068cb3..12467e0 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -197,6 +197,10 @@ def parse_custom_field_list(text_data):
         for _payload in _field_data:
             _data = _field_data[_payload]
 
+            if type(_data) != dict:
+                logging.error(f"Custom Field List Parser - Custom field data for {_payload} is not a JSON object, skipping.")
+                continue
+
             if ("struct" in _data) and ("fields" in _data):
                 # Check the struct value has the right length
                 try:
-- 
2.43.0


From cebf4a08fc4d9dc5aa99f34a53b7eff9b423c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 10/23] fix: an inhibited uploader can be queried, closed and
 joined

---
 horusdemodlib/sondehubamateur.py | 4 ++++
 horusdemodlib/uploader.py        | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/sondehubamateur.py b/horusdemodlib/sondehubamateur.py
index a8a76e8..80440cd 100644
--- a/horusdemodlib/sondehubamateur.py
+++ b/horusdemodlib/sondehubamateur.py
@@ -92,6 +92,10 @@ class SondehubAmateurUploader(object):
         # Record of when we last uploaded a user station position to Sondehub.
         self.last_user_position_upload = 0
 
+        # Processing thread, not started if we are inhibited.
+        self.input_processing_running = False
+        self.input_process_thread = None
+
         try:
             # Python 2 check. Python 2 doesnt have gzip.compress so this will throw an exception.
             gzip.compress(b"\x00\x00")
diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index bf0f4df..6164496 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -286,7 +286,8 @@ def main():
         logging.info("Caught CTRL-C, exiting.")
 
     sondehub_uploader.close()
-    sondehub_uploader.input_process_thread.join()
+    if sondehub_uploader.input_process_thread:
+        sondehub_uploader.input_process_thread.join()
 
 class HorusUploaderTests(unittest.TestCase):
     class mockArgs():
-- 
2.43.0


From 8d5fe9f1f914fc91b91d0eaf7a73db11224bd130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 11/23] fix: a line that is not hexadecimal no longer stops the
 telemetry handler

---
 horusdemodlib/uploader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index 6164496..0e66d3d 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -214,7 +214,7 @@ def main():
                 logging.info(f"Received raw binary packet: {data}")
                 try:
                     _binary_string = codecs.decode(data, 'hex')
-                except TypeError as e:
+                except (TypeError, ValueError) as e:
                     logging.error("Error parsing line as hexadecimal (%s): %s" % (str(e), data))
                     continue
 
-- 
2.43.0


From 0aa7412169b6ecfb8ce19d422cd42282360e9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 12/23] fix: statistics records that are not objects or not
 numeric are ignored instead of raising

---
 horusdemodlib/demodstats.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/horusdemodlib/demodstats.py b/horusdemodlib/demodstats.py
index 9c37cb0..0ce6c4d 100644
--- a/horusdemodlib/demodstats.py
+++ b/horusdemodlib/demodstats.py
@@ -92,12 +92,24 @@ class FSKDemodStats(object):
         else:
             return
 
+        # We can only work with a dictionary of statistics.
+        if type(_data) != dict:
+            self.log_error("Statistics are not a JSON object.")
+            return
+
         # Check for required fields in incoming dictionary.
         for _field in self.FSK_STATS_FIELDS:
             if _field not in _data:
                 self.log_error("Missing Field %s" % _field)
                 return
 
+        # Check that the fields used in calculations are sensible numbers.
+        for _field in ['EbNodB', 'ppm', 'f1_est', 'f2_est', 'f3_est', 'f4_est']:
+            _value = _data.get(_field, 0.0)
+            if not isinstance(_value, (int, float)) or not (abs(_value) < 1e12):
+                self.log_error("Invalid value in field %s" % _field)
+                return
+
         # Now we can process the data.
         _time = time.time()
         self.fft = _data['samp_fft']
-- 
2.43.0


From 26eccd6b698099219728a4e76acdd8b842621846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 13/23] fix: packets without altitude no longer abort handling
 of the packet

---
 horusdemodlib/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/utils.py b/horusdemodlib/utils.py
index 6d89c32..0687bf4 100644
--- a/horusdemodlib/utils.py
+++ b/horusdemodlib/utils.py
@@ -84,7 +84,11 @@ def telem_to_sondehub(telemetry, metadata=None, check_time=True):
     # Frame Number
     _output["frame"] = telemetry["sequence_number"]
 
-    # Position
+    # Position - packets without a valid altitude (possible with Horus Binary v3) cannot be uploaded.
+    if "altitude" not in telemetry:
+        logging.error("SondeHub Data Reformatter - Telemetry contains no valid altitude. Not uploading.")
+        return None
+
     _output["lat"] = telemetry["latitude"]
     _output["lon"] = telemetry["longitude"]
     _output["alt"] = telemetry["altitude"]
-- 
2.43.0


From a8902312f8f81f83abd24fb7c54b3f5d56047995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 14/23] fix: text sentences with a nan or infinite position are
 rejected

---
 horusdemodlib/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index eff1c71..9cdba21 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -434,6 +434,10 @@ def parse_ukhas_string(sentence:str) -> dict:
     if _altitude > 65535 or _altitude < 0:
         raise ValueError("Could not parse RTTY Sentence - Invalid Altitude.")
 
+    # Check the position is made up of actual numbers (float() also accepts nan and infinity).
+    if not (abs(_latitude) < float('inf') and abs(_longitude) < float('inf')):
+        raise ValueError("Could not parse RTTY Sentence - Invalid Latitude or Longitude.")
+
     # Produce a dict output which is compatible with the output of the binary decoder.
     _telem = {
         'raw': _raw,
-- 
2.43.0


From 9a2d60b4d46ab11433db49afd27cbfd0ab4339f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 15/23] fix: bytes on standard input that are not valid text no
 longer stop the telemetry handler

---
 horusdemodlib/uploader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index 0e66d3d..8fcec7a 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -145,6 +145,10 @@ def main():
 
     demod_stats = FSKDemodStats(peak_hold=True)
 
+    # Do not stop on received bytes that are not valid text; such a line is then just a line that does not decode.
+    if hasattr(sys.stdin, 'reconfigure'):
+        sys.stdin.reconfigure(errors='backslashreplace')
+
     logging.info("Started Horus Demod Uploader. Hit CTRL-C to exit.")
     # Main loop
     try:
-- 
2.43.0


From 4c9af52c74dd8bd8f0e7e762c24dd04d3401a878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 16/23] fix: horus_demod writes the packets to the output file
 it is given

---
 src/horus_demod.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/horus_demod.c b/src/horus_demod.c
index 45b3ac9..8acc9ba 100644
--- a/src/horus_demod.c
+++ b/src/horus_demod.c
@@ -247,15 +247,15 @@ int main(int argc, char *argv[]) {
         }
 
         if (horus_rx(hstates, ascii_out, demod_in, quadrature)) {
-            fprintf(stdout, "%s", ascii_out);
+            fprintf(fout, "%s", ascii_out);
             if (crc_results) {
                 if (horus_crc_ok(hstates)) {
-                    fprintf(stdout, "  CRC OK");
+                    fprintf(fout, "  CRC OK");
                 } else {
-                    fprintf(stdout, "  CRC BAD");
+                    fprintf(fout, "  CRC BAD");
                 }
             }
-            fprintf(stdout, "\n");
+            fprintf(fout, "\n");
         }
         
         if (enable_stats && stats_ctr <= 0) {
-- 
2.43.0


From 2950c0fef4576fa4b0a6b1d7d435fef6c0dde3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 17/23] fix: the Python wrapper gives the modem exactly the
 samples it asks for

---
 horusdemodlib/demod.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 5b234e5..d16a5eb 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -123,8 +123,8 @@ class HorusLib():
         self.callback = callback
 
         self.input_buffer = bytearray(b"")
+        self.modem_buffer = bytearray(b"")
 
-        
 
         # try to open the modem and set the verbosity
         self.hstates = horus_api.horus_open_advanced(
@@ -179,8 +179,15 @@ class HorusLib():
             16bit, signed for audio in. You'll need .nin frames in to work correctly.
         """
         # resample to 48khz
-        (demod_in, self.resampler_state) = audioop.ratecv(demod_in, 2, 1+int(self.stereo_iq), self.audio_sample_rate, self.modem_sample_rate, self.resampler_state)
+        return self._demodulate(self._resample(demod_in))
+
+    def _resample(self, samples: bytes) -> bytes:
+        (resampled, self.resampler_state) = audioop.ratecv(samples, 2, 1+int(self.stereo_iq), self.audio_sample_rate, self.modem_sample_rate, self.resampler_state)
+        return resampled
 
+    def _demodulate(self, demod_in: bytes) -> Frame:
+        # the modem always reads .nin frames, complete a shorter block with silence
+        demod_in = demod_in.ljust(self.nin * 2 * (1+int(self.stereo_iq)), b'\x00')
 
         audio_id_data = _horus_api_cffi.ffi.new("char[]",demod_in)
         data_in = _horus_api_cffi.ffi.cast( # cast bytes to short
@@ -238,17 +245,24 @@ class HorusLib():
         # Add samples to input buffer
         self.input_buffer.extend(samples)
 
+        # Resample the whole frames in it. The number of samples this gives varies, so the blocks
+        # for the modem have to be cut from the result.
+        _frame_size = 2 * (2 if self.stereo_iq else 1)
+        _usable = len(self.input_buffer) - len(self.input_buffer) % _frame_size
+        self.modem_buffer.extend(self._resample(bytes(self.input_buffer[:_usable])))
+        self.input_buffer = self.input_buffer[_usable:]
+
         _processing = True
         _frame = None
         while _processing:
             # Process data until we have less than _nin samples.
-            _nin = int(self.nin*(self.audio_sample_rate/self.modem_sample_rate)) * (2 if self.stereo_iq else 1)
-            if len(self.input_buffer) > (_nin * 2):
+            _nin = self.nin * (2 if self.stereo_iq else 1)
+            if len(self.modem_buffer) >= (_nin * 2):
                 # Demodulate
-                _frame = self.demodulate(self.input_buffer[:(_nin*2)])
+                _frame = self._demodulate(bytes(self.modem_buffer[:(_nin*2)]))
 
                 # Advance sample buffer.
-                self.input_buffer = self.input_buffer[(_nin*2):]
+                self.modem_buffer = self.modem_buffer[(_nin*2):]
 
                 # If we have decoded a packet, send it on to the callback
                 if len(_frame.data) > 0:
-- 
2.43.0


From e4cc5a6041c2d2f9fcac21acb0cb0c709109267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:04 +0000
Subject: [PATCH 18/23] fix: end the estimator limits message with a newline,
 statistics lines follow it on the same stream

---
 src/horus_demod.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/horus_demod.c b/src/horus_demod.c
index 8acc9ba..3552d11 100644
--- a/src/horus_demod.c
+++ b/src/horus_demod.c
@@ -228,7 +228,7 @@ int main(int argc, char *argv[]) {
         horus_set_freq_est_limits(hstates, fsk_lower, fsk_upper);
         fprintf(stderr,"Setting estimator limits to %d to %d Hz.\n",fsk_lower, fsk_upper);
     } else {
-        fprintf(stderr,"Not setting estimator limits, upper must be higher than lower.");
+        fprintf(stderr,"Not setting estimator limits, upper must be higher than lower.\n");
     }
 
     
-- 
2.43.0


From 9fe2f0d540353738955a83b9f5c391386c398847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 19/23] fix: cut the modem output at its terminator before
 decoding it

---
 horusdemodlib/demod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index d16a5eb..cfacd11 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -209,7 +209,7 @@ class HorusLib():
         if (self.mode != Mode.RTTY_7N2) and (self.mode != Mode.RTTY_8N2) and (self.mode != Mode.RTTY_7N1):
             try:
                 # We are currently getting the whole buffer from the demod. We only want the first null-terminated section.
-                data_out = bytes.fromhex(data_out.decode("ascii").split('\0')[0])
+                data_out = bytes.fromhex(data_out.split(b'\0')[0].decode("ascii"))
             except ValueError:
                 logging.debug(data_out)
                 logging.error("Couldn't decode the hex from the modem")
@@ -218,7 +218,7 @@ class HorusLib():
             # Ascii
             try:
                 # Same thing here - we might have multiple bits of data
-                data_out = data_out.decode("ascii").split('\0')[0]
+                data_out = data_out.split(b'\0')[0].decode("ascii")
             except Exception as e:
                 logging.error(f"Couldn't decode ASCII - {str(e)} - {str(data_out)}")
                 data_out = ""
-- 
2.43.0


From bef3e2f1e2fcb5b302a91aa5245b685e9af2a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 20/23] fix: the Python binding declares the packet limits of
 the C header

---
 horusdemodlib/horus_api_build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horusdemodlib/horus_api_build.py b/horusdemodlib/horus_api_build.py
index 1549ba8..e9ce4e9 100644
--- a/horusdemodlib/horus_api_build.py
+++ b/horusdemodlib/horus_api_build.py
@@ -96,8 +96,8 @@ def preprocess_h():
 #define HORUS_BINARY_V2_128BIT_DEFAULT_TONE_SPACING            270 
 
 
-#define HORUS_BINARY_V1V2_MAX_BITS       520  
-#define HORUS_BINARY_V1V2_MAX_UNCODED_BYTES    32 
+#define HORUS_BINARY_V1V2_MAX_BITS      3640
+#define HORUS_BINARY_V1V2_MAX_UNCODED_BYTES   128
 
 // Not using LDPC any more...
 // // Settings for Horus Binary 256-bit mode (LDPC Encoding, r=1/3)
-- 
2.43.0


From fbde8831975dd341167d13febaa94cf8c4728836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 21/23] fix: keep the frequency estimator's upper bin inside
 the FFT when the limit is below -Fs/2

---
 src/fsk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fsk.c b/src/fsk.c
index 05c5a09..0f5c41d 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -461,7 +461,7 @@ void fsk_demod_freq_est(struct FSK *fsk, COMP fsk_in[], float *freqs, int M) {
     #endif
     
     st = (fsk->est_min*Ndft)/Fs + Ndft/2; if (st < 0) st = 0;
-    en = (fsk->est_max*Ndft)/Fs + Ndft/2; if (en > Ndft) en = Ndft;
+    en = (fsk->est_max*Ndft)/Fs + Ndft/2; if (en > Ndft) en = Ndft; if (en < 0) en = 0;
     //fprintf(stderr, "min: %d max: %d st: %d en: %d\n", fsk->est_min, fsk->est_max, st, en);
     
     f_zero = (fsk->est_space*Ndft)/Fs;
-- 
2.43.0


From 3a8693fd85a0993a29b62b6264207d103cb0f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 22/23] fix: do not write past the tone mask when the tone
 spacing exceeds the sample rate

---
 src/fsk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fsk.c b/src/fsk.c
index 0f5c41d..a1be78b 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -559,7 +559,7 @@ void fsk_demod_freq_est(struct FSK *fsk, COMP fsk_in[], float *freqs, int M) {
     int bin=0;
     for(int m=1; m<=M-1; m++) {
         bin = round((float)m*fsk->fs_tx*Ndft/Fs)-1;
-        for(i=bin; i<=bin+2; i++) mask[i] = 1.0;
+        for(i=bin; i<=bin+2 && i<Ndft; i++) mask[i] = 1.0;
     }
     int len_mask = bin+2+1;
 
-- 
2.43.0


From e25f6063111680c503c598b1e099dd33d6e8eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 23/23] fix: clear the sync words of a reported RTTY line
 relative to the line, not to the overwritten position

---
 src/horus_api.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index bacc086..c70085c 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -718,8 +718,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int packet_end = hstates->uw_loc[uw_idx] + (int)strlen(ascii_out)*9;
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear] < packet_end) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -735,8 +736,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int packet_end = hstates->uw_loc[uw_idx] + (int)strlen(ascii_out)*10;
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear] < packet_end) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -751,8 +753,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int packet_end = hstates->uw_loc[uw_idx] + (int)strlen(ascii_out)*11;
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear] < packet_end) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
-- 
2.43.0

