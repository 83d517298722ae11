From c7d5e4ba2fb90ab7f591b0d55d7b243467adf87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:50 +0000
Subject: [PATCH 01/41] fix: bound OID decoding by the number of subidentifiers
 and check for NULL first

iso8825_ber_oid_decode() compared the subidentifier count to the size in bytes
of the output array, allowing up to 40 subidentifiers to be written to an array
of 10, and cleared the output before verifying that it is not NULL.
---
 src/iso8825_ber.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index ed64e25..1df5f19 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -267,11 +267,10 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 {
 	const uint8_t* buf = ptr;
 
-	memset(oid, 0, sizeof(*oid));
-
 	if (!ptr || !oid || !len) {
 		return -1;
 	}
+	memset(oid, 0, sizeof(*oid));
 
 	if (len >= sizeof(oid->value)) {
 		// OID too long
@@ -294,9 +293,14 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 	--len;
 
 	// See ISO 8825-1:2003, 8.19
-	while (len && oid->length < sizeof(oid->value)) {
+	while (len) {
 		uint32_t subid = 0;
 
+		if (oid->length >= sizeof(oid->value) / sizeof(oid->value[0])) {
+			// Too many subidentifiers
+			return -3;
+		}
+
 		// Decode multibyte subidentifier
 		while (len) {
 			// Determine whether it is the last octet of the subidentifier
-- 
2.43.0


From b07ef1524fecc99fa0d61701602cbfda75def0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:50 +0000
Subject: [PATCH 02/41] fix: consume end-of-content octets of indefinite length
 BER fields

iso8825_ber_decode() excluded the end-of-content octets from the number of
bytes consumed, such that the field following an indefinite length field was
decoded from the end-of-content octets and nested indefinite length fields
terminated the outer field too early.
---
 src/iso8825_ber.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index 1df5f19..741e411 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -86,6 +86,7 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 	int r;
 	const uint8_t* buf = ptr;
 	size_t offset = 0;
+	size_t eoc_len = 0;
 
 	if (!ptr || !tlv) {
 		return -1;
@@ -143,6 +144,7 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 
 			// Check for end-of-content
 			if (inner_tlv.tag == ASN1_EOC) {
+				eoc_len = r;
 				break;
 			}
 
@@ -191,9 +193,9 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 		return -11;
 	}
 
-	// Consume content
+	// Consume content, as well as end-of-content for indefinite length form
 	tlv->value = &buf[offset];
-	offset += tlv->length;
+	offset += tlv->length + eoc_len;
 
 	// Capture class and primitive/constructed bits as flags
 	tlv->flags = buf[0] & (ISO8825_BER_CLASS_MASK | ISO8825_BER_CONSTRUCTED);
-- 
2.43.0


From bc1a19c2dc5c5bbec6d566db6b44deb891e41612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:51 +0000
Subject: [PATCH 03/41] fix: advance beyond ATR interface byte TD4 before
 parsing historical bytes

The index of TD4 was preserved for a loop iteration that never follows, such
that TD4 was interpreted as category indicator byte T1 and the remaining ATR
bytes were off by one. An ATR that ends before TD4 was accepted as valid. Also
reject unsupported interface bytes after TD4.
---
 src/iso7816.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 8fe6836..0a86e2e 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -159,6 +159,17 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 			if (protocol != ISO7816_PROTOCOL_T0) {
 				tck_mandatory = true;
 			}
+
+			if (i == 4) {
+				// TD4 is the last supported interface byte. Ensure that it
+				// does not indicate any further interface bytes and advance
+				// beyond it to the historical bytes.
+				if (*atr_info->TD[i] & ~ISO7816_ATR_Tx_OTHER_MASK) {
+					// Unsupported interface bytes after TD4
+					return 9;
+				}
+				++atr_idx;
+			}
 		} else {
 			// No more interface bytes remaining
 			break;
-- 
2.43.0


From 56918376e3e26405c7b24d6862257654cca838a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:52 +0000
Subject: [PATCH 04/41] fix: reject ATR without enough historical bytes for
 mandatory status indicator

The length of the historical bytes underflowed and caused COMPACT-TLV parsing
beyond the end of the ATR.
---
 src/iso7816.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 0a86e2e..312d6e3 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -204,6 +204,12 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 		// See ISO 7816-4:2005, 8.1.1
 		switch (atr_info->T1) {
 			case ISO7816_ATR_T1_COMPACT_TLV_SI:
+				if (atr_info->historical_bytes_len < 3) {
+					// Insufficient historical bytes for mandatory status
+					// indicator
+					return 5;
+				}
+
 				// Store status indicator bytes for later parsing
 				atr_info->historical_bytes_len -= 3;
 				atr_info->status_indicator_bytes = atr_info->historical_bytes + atr_info->historical_bytes_len;
-- 
2.43.0


From 09311306f5f282533b2e9df77847f2a1e933f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:52 +0000
Subject: [PATCH 05/41] fix: accept ATR historical bytes without COMPACT-TLV
 data objects

---
 src/iso7816.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 312d6e3..7d294bb 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -731,6 +731,12 @@ static int iso7816_atr_parse_historical_bytes(const void* historical_bytes, size
 	struct iso7816_compact_tlv_itr_t itr;
 	struct iso7816_compact_tlv_t tlv;
 
+	if (!historical_bytes_len) {
+		// COMPACT-TLV data objects are optional
+		// See ISO 7816-4:2005, 8.1.1
+		return 0;
+	}
+
 	r = iso7816_compact_tlv_itr_init(historical_bytes, historical_bytes_len, &itr);
 	if (r) {
 		return 24;
-- 
2.43.0


From 2bc50877e8f33facf1b4b8446ee0e3e49194eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:53 +0000
Subject: [PATCH 06/41] fix: avoid overflow when computing BWT for protocol T=1

---
 src/iso7816.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816.c b/src/iso7816.c
index 7d294bb..b71793c 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -722,7 +722,7 @@ static void iso7816_compute_wt(struct iso7816_atr_info_t* atr_info)
 	// BWT = (((2^BWI x 960 x 372 x D / F) + 11)etu; where D is Di and F is Fi
 
 	// And finally, after all that thinking...
-	atr_info->protocol_T1.BWT = 11 + (((1 << BWI) * 960 * 372 * Di) / Fi);
+	atr_info->protocol_T1.BWT = 11 + (((uint64_t)(1 << BWI) * 960 * 372 * Di) / Fi);
 }
 
 static int iso7816_atr_parse_historical_bytes(const void* historical_bytes, size_t historical_bytes_len, struct iso7816_atr_info_t* atr_info)
-- 
2.43.0


From c2d8a3971dcd9e92da5d1e8b9bee258651b4e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:53 +0000
Subject: [PATCH 07/41] fix: avoid endless READ RECORD loop when AFL indicates
 last record 255

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 644e602..29b3fe1 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -754,7 +754,7 @@ static int emv_tal_read_sfi_records(
 		return EMV_TAL_ERROR_INVALID_PARAMETER;
 	}
 
-	for (uint8_t record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
+	for (unsigned int record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
 		uint8_t record[EMV_RAPDU_DATA_MAX];
 		size_t record_len = sizeof(record);
 		uint16_t sw1sw2;
-- 
2.43.0


From 453ed4f89fa44d077d16e675bf1cfddebf808ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:54 +0000
Subject: [PATCH 08/41] fix: reject empty application data record instead of
 using uninitialised data

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 29b3fe1..6676c83 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -792,7 +792,7 @@ static int emv_tal_read_sfi_records(
 
 		// Therefore, any record that is not encoded as field 70 should not be
 		// parsed for EMV fields and invalidates offline data authentication.
-		if (record[0] != EMV_TAG_70_DATA_TEMPLATE) {
+		if (!record_len || record[0] != EMV_TAG_70_DATA_TEMPLATE) {
 			if (afl_entry->sfi >= 1 && afl_entry->sfi <= 10) {
 				// Invalid record for SFIs 1 - 10
 				// EMV 4.4 Book 3, 6.5.11.4
-- 
2.43.0


From 17b09895b4e9894542ceab3ccc8b2f33d1342890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 09/41] fix: avoid endless READ RECORD loop after PSE record
 number 255

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 6676c83..68e28a4 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -149,7 +149,7 @@ int emv_tal_read_pse(
 
 	// Read all records from PSE AEF using the SFI
 	// See EMV 4.4 Book 1, 12.2.3
-	for (uint8_t record_number = 1; ; ++record_number) {
+	for (unsigned int record_number = 1; record_number <= 0xFF; ++record_number) {
 		uint8_t aef_record[EMV_RAPDU_DATA_MAX];
 		size_t aef_record_len = sizeof(aef_record);
 
-- 
2.43.0


From 87d2596bdb60d8edc678fe0d6c05284295c54519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 10/41] fix: use decoded tag when reporting unexpected PSE AEF
 record

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 68e28a4..3739085 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -240,7 +240,7 @@ static int emv_tal_parse_aef_record(
 	}
 	if (aef_template_tlv.tag != EMV_TAG_70_DATA_TEMPLATE) {
 		// No AEF template in PSE record; ignore and continue
-		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", tlv.tag);
+		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", aef_template_tlv.tag);
 		return EMV_TAL_RESULT_PSE_AEF_INVALID;
 	}
 
-- 
2.43.0


From 447de83c17ab8a1ce53c4adabae1edab72f1ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:56 +0000
Subject: [PATCH 11/41] fix: only provide AIP and AFL when GET PROCESSING
 OPTIONS succeeds

The AIP output pointed to a freed field when AFL was not found.
---
 src/emv_tal.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 3739085..4d42415 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -555,6 +555,8 @@ int emv_tal_get_processing_options(
 	struct iso8825_tlv_t gpo_tlv;
 	struct emv_tlv_list_t gpo_list = EMV_TLV_LIST_INIT;
 	const struct emv_tlv_t* tlv;
+	const struct emv_tlv_t* aip_tlv;
+	const struct emv_tlv_t* afl_tlv;
 
 	if (!ttl || !list) {
 		// Invalid parameters; terminate session
@@ -695,7 +697,7 @@ int emv_tal_get_processing_options(
 		}
 	}
 
-	// Populate AIP pointer
+	// Find AIP
 	tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_82_APPLICATION_INTERCHANGE_PROFILE);
 	if (!tlv) {
 		// Mandatory field missing; terminate session
@@ -704,11 +706,9 @@ int emv_tal_get_processing_options(
 		r = EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND;
 		goto exit;
 	}
-	if (aip) {
-		*aip = tlv;
-	}
+	aip_tlv = tlv;
 
-	// Populate AFL pointer
+	// Find AFL
 	tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_94_APPLICATION_FILE_LOCATOR);
 	if (!tlv) {
 		// Mandatory field missing; terminate session
@@ -717,9 +717,7 @@ int emv_tal_get_processing_options(
 		r = EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND;
 		goto exit;
 	}
-	if (afl) {
-		*afl = tlv;
-	}
+	afl_tlv = tlv;
 
 	r = emv_tlv_list_append(list, &gpo_list);
 	if (r) {
@@ -731,6 +729,14 @@ int emv_tal_get_processing_options(
 		goto exit;
 	}
 
+	// Populate AIP and AFL pointers
+	if (aip) {
+		*aip = aip_tlv;
+	}
+	if (afl) {
+		*afl = afl_tlv;
+	}
+
 	// Successful GPO processing
 	r = 0;
 	goto exit;
-- 
2.43.0


From 1f3b344fd9cdd3360cbb2a683544620a6e4b0925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:56 +0000
Subject: [PATCH 12/41] fix: reject empty FCI instead of using uninitialised
 data

---
 src/emv_app.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index a76a46f..86a08d3 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -99,7 +99,7 @@ struct emv_app_t* emv_app_create_from_fci(const void* fci, size_t fci_len)
 
 	// Parse FCI template
 	r = iso8825_ber_decode(fci, fci_len, &tlv);
-	if (r != fci_len) {
+	if (r <= 0 || r != fci_len) {
 		// Parse error
 		goto error;
 	}
-- 
2.43.0


From 807263a79bc1548f0e09f73a98b1a4d0c47e3258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:57 +0000
Subject: [PATCH 13/41] fix: report success for JCB application identifiers

---
 src/emv_fields.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emv_fields.c b/src/emv_fields.c
index cd097a1..3c6e6a5 100644
--- a/src/emv_fields.c
+++ b/src/emv_fields.c
@@ -217,6 +217,7 @@ int emv_aid_get_info(
 	// JCB
 	if (emv_aid_match(aid, aid_len, jcb_aid)) {
 		info->scheme = EMV_CARD_SCHEME_JCB;
+		return 0;
 	}
 
 	// Dankort
-- 
2.43.0


From 7937cf51ed4be6b336eb793137af7f72f5381649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:57 +0000
Subject: [PATCH 14/41] fix: compare T=0 procedure byte with INS of C-TPDU
 header

After sending C-TPDU data, the procedure byte was compared with the second byte
of that data, which may also be beyond the end of the data.
---
 src/emv_ttl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 20657d0..a769eb0 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -141,7 +141,12 @@ int emv_ttl_trx(
 		emv_debug_rtpdu(rx_buf, rx_len);
 
 		// Store INS of most recent tx for later use
-		INS = *((uint8_t*)(tx_buf + 1));
+		if (ctx->cardreader.mode == EMV_CARDREADER_MODE_TPDU) {
+			// Most recent tx may have been C-TPDU data instead of C-TPDU header
+			INS = c_tpdu_header[1];
+		} else {
+			INS = *((uint8_t*)(tx_buf + 1));
+		}
 
 		// Extract SW1-SW2 status bytes
 		if (rx_len > 1) {
-- 
2.43.0


From cf994485ec1f629d4c47945be43d0dfb30211a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:58 +0000
Subject: [PATCH 15/41] fix: send only remaining T=0 command data after
 acknowledgement

When the card first acknowledged individual data bytes, or requested GET
RESPONSE before acknowledging any data, the remaining data length was not
adjusted and data beyond the end of the C-APDU was sent to the card.
---
 src/emv_ttl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index a769eb0..369508e 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -204,7 +204,8 @@ int emv_ttl_trx(
 				}
 
 				tx_buf = c_tpdu_data;
-				tx_buf_len = c_tpdu_header[4]; // Next transmit length is Lc
+				// Next transmit length is Lc, excluding data already sent
+				tx_buf_len = c_tpdu_header[4] - (c_tpdu_data - c_apdu - 5);
 
 				// No more data available
 				c_tpdu_data = NULL;
@@ -388,6 +389,9 @@ int emv_ttl_trx(
 				Le = 0;
 			}
 
+			// No command data available for GET RESPONSE
+			c_tpdu_data = NULL;
+
 			// Build GET RESPONSE for next transmission
 			// See ISO 7816-4:2005, 7.6.1
 			// See EMV Contact Interface Specification v1.0, 9.3.1.3
-- 
2.43.0


From 8e56948b0563466ab62a3530e8ab9c6168fef1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:58 +0000
Subject: [PATCH 16/41] fix: retain C-TPDU header when updating Le for status
 6CXX

If the most recent transmission was C-TPDU data, the header was built from the
command data. If it was the C-TPDU header, memcpy() was used for overlapping
buffers.
---
 src/emv_ttl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 369508e..c14228d 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -410,8 +410,12 @@ int emv_ttl_trx(
 		if (tx_update_le) {
 			// Update Le for next transmission
 			// See EMV Contact Interface Specification v1.0, 9.2.2.3.1, table 25
-			memcpy(c_tpdu_header, tx_buf, 4);
+			if (tx_buf == c_apdu) {
+				// C-TPDU header not yet available for APDU mode
+				memcpy(c_tpdu_header, c_apdu, 4);
+			}
 			c_tpdu_header[4] = SW2; // P3 = Le
+			c_tpdu_data = NULL;
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
 
-- 
2.43.0


From 95f8d8506fcab970e5754a10a7733177d3992b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:59 +0000
Subject: [PATCH 17/41] fix: ensure that R-APDU buffer has capacity for SW1-SW2

---
 src/emv_ttl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index c14228d..12cdfb1 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -55,6 +55,10 @@ int emv_ttl_trx(
 	if (!ctx || !c_apdu || !c_apdu_len || !r_apdu || !r_apdu_len || !*r_apdu_len || !sw1sw2) {
 		return -1;
 	}
+	if (*r_apdu_len < 2) {
+		// Ensure that R-APDU buffer has enough capacity for SW1-SW2
+		return -1;
+	}
 
 	emv_debug_capdu(c_apdu, c_apdu_len);
 
-- 
2.43.0


From 11d5fa734c0691507c455db6174de3ca49338b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:59 +0000
Subject: [PATCH 18/41] fix: reserve space for null termination during simple
 ISO 8859 conversion

---
 src/iso8859_simple.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso8859_simple.c b/src/iso8859_simple.c
index 9412595..9b288bc 100644
--- a/src/iso8859_simple.c
+++ b/src/iso8859_simple.c
@@ -58,8 +58,9 @@ int iso8859_to_utf8(
 			break;
 		}
 
-		// Ensure that at least 2 output bytes are available
-		if (utf8_len - utf8_idx < 2) {
+		// Ensure that enough output bytes are available for the encoded
+		// character, as well as null termination
+		if (utf8_len - utf8_idx < (iso8859[i] < 0x80 ? 2 : 3)) {
 			// Unsufficient space left in output buffer
 			break;
 		}
-- 
2.43.0


From 2b3b4ed240b219697ca7defdcd9e4471c4186c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:59 +0000
Subject: [PATCH 19/41] fix: null terminate output of iconv ISO 8859 conversion

---
 src/iso8859_iconv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso8859_iconv.c b/src/iso8859_iconv.c
index 7c00e44..8ac973c 100644
--- a/src/iso8859_iconv.c
+++ b/src/iso8859_iconv.c
@@ -52,7 +52,7 @@ int iso8859_to_utf8(
 	char* inbuf = (char*)iso8859;
 	size_t inbytesleft = iso8859_len;
 	char* outbuf = utf8;
-	size_t outbytesleft = utf8_len;
+	size_t outbytesleft = utf8_len - 1; // Ensure enough space for NULL termination
 
 	if (!iso8859 || !iso8859_len || !utf8 || !utf8_len) {
 		return -1;
@@ -70,6 +70,7 @@ int iso8859_to_utf8(
 	}
 	r = iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
 	iconv_close(cd);
+	*outbuf = 0; // NULL terminate
 	if (r == (size_t)-1) {
 		return 2;
 	}
-- 
2.43.0


From ea02eb540bb90963ae5dfc117a8fe77492d03d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:00 +0000
Subject: [PATCH 20/41] fix: avoid NULL dereference in debug trace for invalid
 context

---
 src/emv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv.c b/src/emv.c
index 0d456bf..90e8b5e 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -502,7 +502,7 @@ int emv_initiate_application_processing(
 	struct emv_tlv_list_t gpo_output = EMV_TLV_LIST_INIT;
 
 	if (!ctx || !ctx->selected_app) {
-		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx->selected_app);
+		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx ? ctx->selected_app : NULL);
 		emv_debug_error("Invalid parameter");
 		return EMV_ERROR_INVALID_PARAMETER;
 	}
-- 
2.43.0


From 6c0d12c95557de5f8dba8fef4ba771bb8f37e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:00 +0000
Subject: [PATCH 21/41] fix: reject repeated application processing for same
 selected application

After success, the application data fields, including the AID, are owned by the
ICC data list, which was freed before using the AID again.
---
 src/emv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/emv.c b/src/emv.c
index 90e8b5e..8d361f4 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -507,6 +507,12 @@ int emv_initiate_application_processing(
 		return EMV_ERROR_INVALID_PARAMETER;
 	}
 
+	if (emv_tlv_list_is_empty(&ctx->selected_app->tlv_list)) {
+		// Application data has already been moved to ICC data list
+		emv_debug_error("Application processing has already been initiated");
+		return EMV_ERROR_INVALID_PARAMETER;
+	}
+
 	// Clear existing ICC data and terminal data lists to avoid ambiguity
 	emv_tlv_list_clear(&ctx->icc);
 	emv_tlv_list_clear(&ctx->terminal);
-- 
2.43.0


From d9a1fcdd1d53be4369caf3c84f0498f5550f4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:01 +0000
Subject: [PATCH 22/41] fix: consider application not supported if there are no
 supported AIDs

---
 src/emv_app.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emv_app.c b/src/emv_app.c
index 86a08d3..9edd507 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -292,6 +292,9 @@ bool emv_app_is_supported(
 		// Invalid app; not supported
 		return false;
 	}
+	if (!supported_aids) {
+		return false;
+	}
 
 	// See EMV 4.4 Book 1, 12.3.1
 	for (tlv = supported_aids->front; tlv != NULL; tlv = tlv->next) {
-- 
2.43.0


From fc374250fae848919402dfe016e8b9887b736b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:47 +0000
Subject: [PATCH 23/41] fix: reject EMV format "n" value that is too large for
 decoded integer

---
 src/emv_tlv.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/emv_tlv.c b/src/emv_tlv.c
index 30496d6..55986b1 100644
--- a/src/emv_tlv.c
+++ b/src/emv_tlv.c
@@ -472,6 +472,10 @@ int emv_format_n_to_uint(const uint8_t* buf, size_t buf_len, uint32_t* value)
 			// Invalid digit for EMV format "n"
 			return 1;
 		}
+		if (((uint64_t)*value * 10) + digit > UINT32_MAX) {
+			// Value too large for 32-bit unsigned integer
+			return 3;
+		}
 		// Shift decimal digit into x
 		*value = (*value * 10) + digit;
 
@@ -481,6 +485,10 @@ int emv_format_n_to_uint(const uint8_t* buf, size_t buf_len, uint32_t* value)
 			// Invalid digit for EMV format "n"
 			return 2;
 		}
+		if (((uint64_t)*value * 10) + digit > UINT32_MAX) {
+			// Value too large for 32-bit unsigned integer
+			return 4;
+		}
 		// Shift decimal digit into x
 		*value = (*value * 10) + digit;
 	}
-- 
2.43.0


From 6e453917d5f038afa51101fba540421eb6506822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:09 +0000
Subject: [PATCH 24/41] fix: use correct octets to determine extended APDU case

---
 src/iso7816_apdu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso7816_apdu.h b/src/iso7816_apdu.h
index c8c860e..1877c80 100644
--- a/src/iso7816_apdu.h
+++ b/src/iso7816_apdu.h
@@ -118,8 +118,8 @@ static inline int iso7816_apdu_case(const void* c_apdu, size_t c_apdu_len)
 			if (c_apdu_len > 7) {
 				// Extract bytes C6C7 from header
 				// See ISO 7816-3:2006, 12.1.3, table 13
-				unsigned int C6 = *(uint8_t*)(c_apdu + 6);
-				unsigned int C7 = *(uint8_t*)(c_apdu + 7);
+				unsigned int C6 = *(uint8_t*)(c_apdu + 5);
+				unsigned int C7 = *(uint8_t*)(c_apdu + 6);
 				unsigned int C6C7 = (C6 << 8) + C7;
 
 				if (C6C7) {
-- 
2.43.0


From 36cf12233a3cf56631715f7f3c5628457d11b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:58 +0000
Subject: [PATCH 25/41] fix: use only first TAi, TBi and TCi for each ATR
 protocol

ISO 7816-3:2006, 8.3 and 11.4 only assign a meaning to the first TA, TB and
TC for T=15 and T=1. An ATR with more than one TDi for the same protocol took
the parameters from the last of these instead.
---
 src/iso7816.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index b71793c..9111244 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -35,6 +35,7 @@ static int iso7816_atr_parse_TDi(unsigned int i, uint8_t TDi, struct iso7816_atr
 static int iso7816_atr_parse_TA2(uint8_t TA2, struct iso7816_atr_info_t* atr_info);
 static int iso7816_atr_parse_TB2(uint8_t TB2, struct iso7816_atr_info_t* atr_info);
 static int iso7816_atr_parse_TC2(uint8_t TC2, struct iso7816_atr_info_t* atr_info);
+static bool iso7816_atr_is_first_for_protocol(uint8_t protocol, unsigned int i, const uint8_t* const Xi[5], const struct iso7816_atr_info_t* atr_info);
 static int iso7816_atr_parse_TAi(uint8_t protocol, unsigned int i, uint8_t TAi, struct iso7816_atr_info_t* atr_info);
 static int iso7816_atr_parse_TBi(uint8_t protocol, unsigned int i, uint8_t TBi, struct iso7816_atr_info_t* atr_info);
 static int iso7816_atr_parse_TCi(uint8_t protocol, unsigned int i, uint8_t TCi, struct iso7816_atr_info_t* atr_info);
@@ -506,8 +507,26 @@ static int iso7816_atr_parse_TC2(uint8_t TC2, struct iso7816_atr_info_t* atr_inf
 	return 0;
 }
 
+static bool iso7816_atr_is_first_for_protocol(uint8_t protocol, unsigned int i, const uint8_t* const Xi[5], const struct iso7816_atr_info_t* atr_info)
+{
+	// Determine whether interface byte Xi is the first TAi, TBi or TCi, for
+	// i>=3, after an occurrence of T=protocol in TD(i-1)
+	for (unsigned int j = 3; j < i; ++j) {
+		if (Xi[j] && (*atr_info->TD[j-1] & ISO7816_ATR_Tx_OTHER_MASK) == protocol) {
+			return false;
+		}
+	}
+
+	return true;
+}
+
 static int iso7816_atr_parse_TAi(uint8_t protocol, unsigned int i, uint8_t TAi, struct iso7816_atr_info_t* atr_info)
 {
+	if (!iso7816_atr_is_first_for_protocol(protocol, i, atr_info->TA, atr_info)) {
+		// Only the first TA for each protocol has a meaning
+		return 0;
+	}
+
 	// Global interface parameters
 	if (protocol == ISO7816_PROTOCOL_T15) {
 		// First TA for T=15 encodes class indicator Y in bits 1 to 6
@@ -548,6 +567,11 @@ static int iso7816_atr_parse_TAi(uint8_t protocol, unsigned int i, uint8_t TAi,
 
 static int iso7816_atr_parse_TBi(uint8_t protocol, unsigned int i, uint8_t TBi, struct iso7816_atr_info_t* atr_info)
 {
+	if (!iso7816_atr_is_first_for_protocol(protocol, i, atr_info->TB, atr_info)) {
+		// Only the first TB for each protocol has a meaning
+		return 0;
+	}
+
 	// Global interface parameters
 	if (protocol == ISO7816_PROTOCOL_T15) {
 		// First TB for T=15 indicates the use of SPU by the card (ISO 7816-3:2006, 8.3, page 20)
@@ -592,6 +616,11 @@ static int iso7816_atr_parse_TBi(uint8_t protocol, unsigned int i, uint8_t TBi,
 
 static int iso7816_atr_parse_TCi(uint8_t protocol, unsigned int i, uint8_t TCi, struct iso7816_atr_info_t* atr_info)
 {
+	if (!iso7816_atr_is_first_for_protocol(protocol, i, atr_info->TC, atr_info)) {
+		// Only the first TC for each protocol has a meaning
+		return 0;
+	}
+
 	// Protocol T=1 parameters
 	if (protocol == ISO7816_PROTOCOL_T1) {
 		// First TC for T=1 indicates the error detection code to be used (ISO 7816-3:2006, 11.4.4)
-- 
2.43.0


From b9ebc4ca33828a83deb04bf8d666552a774e97bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:11 +0000
Subject: [PATCH 26/41] fix: retain order of applications without priority when
 sorting

---
 src/emv_app.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index 9edd507..adeb7f6 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -523,10 +523,13 @@ int emv_app_list_sort_priority(struct emv_app_list_t* list)
 		// implementation chooses to favour applications with a priority
 		// indicator over those without.
 		for (struct emv_app_t* cur = sorted_list.front; cur != NULL; cur = cur->next) {
-			if (!cur->priority) {
-				break;
-			}
-			if (app->priority && app->priority < cur->priority) {
+			// Applications with the same priority, and those without a
+			// priority indicator, remain in the order in which they were
+			// encountered.
+			// See EMV 4.4 Book 1, 12.4, step 4
+			if (app->priority &&
+				(!cur->priority || app->priority < cur->priority)
+			) {
 				break;
 			}
 			pos = cur;
-- 
2.43.0


From 459b2e2b57961ec090dfdfc0c5d6a167385fb8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 27/41] fix: decode first OID subidentifier when it consists of
 multiple octets

---
 src/iso8825_ber.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index 741e411..0d09d7d 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -279,21 +279,6 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 		return -2;
 	}
 
-	// See ISO 8825-1:2003, 8.19.4
-	if (buf[0] < 40) { // ITU-T
-		oid->value[0] = ASN1_OID_ITU_T;
-		oid->value[1] = buf[0];
-	} else if (buf[0] < 80) { // ISO
-		oid->value[0] = ASN1_OID_ISO;
-		oid->value[1] = buf[0] - 40;
-	} else { // joint-iso-itu-t
-		oid->value[0] = ASN1_OID_JOINT;
-		oid->value[1] = buf[0] - 80;
-	}
-	oid->length = 2;
-	++buf;
-	--len;
-
 	// See ISO 8825-1:2003, 8.19
 	while (len) {
 		uint32_t subid = 0;
@@ -320,6 +305,23 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 				break;
 		}
 
+		// First subidentifier encodes the first two components
+		// See ISO 8825-1:2003, 8.19.4
+		if (!oid->length) {
+			if (subid < 40) { // ITU-T
+				oid->value[0] = ASN1_OID_ITU_T;
+				oid->value[1] = subid;
+			} else if (subid < 80) { // ISO
+				oid->value[0] = ASN1_OID_ISO;
+				oid->value[1] = subid - 40;
+			} else { // joint-iso-itu-t
+				oid->value[0] = ASN1_OID_JOINT;
+				oid->value[1] = subid - 80;
+			}
+			oid->length = 2;
+			continue;
+		}
+
 		// Store subidentifier
 		oid->value[oid->length] = subid;
 		++oid->length;
-- 
2.43.0


From b186d3d630b4c2eaea119a2deeae004d8c346d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:10 +0000
Subject: [PATCH 28/41] fix: resend complete C-APDU for status 6CXX during APDU
 case 4 in APDU mode

---
 src/emv_ttl.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 12cdfb1..545c7d5 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -42,6 +42,8 @@ int emv_ttl_trx(
 
 	// C-TPDU header: CLA INS P1 P2 P3
 	uint8_t c_tpdu_header[5];
+	// C-APDU with updated Le: used for APDU case 4 in APDU mode
+	uint8_t c_apdu_le[EMV_CAPDU_MAX];
 	// C-TPDU data: found after P3; NULL if absent
 	const void* c_tpdu_data = NULL;
 
@@ -414,6 +416,19 @@ int emv_ttl_trx(
 		if (tx_update_le) {
 			// Update Le for next transmission
 			// See EMV Contact Interface Specification v1.0, 9.2.2.3.1, table 25
+			if (ctx->cardreader.mode == EMV_CARDREADER_MODE_APDU &&
+				apdu_case == ISO7816_APDU_CASE_4S &&
+				tx_buf != c_tpdu_header
+			) {
+				// APDU mode requires the whole C-APDU for APDU case 4
+				memcpy(c_apdu_le, c_apdu, c_apdu_len);
+				c_apdu_le[c_apdu_len - 1] = SW2; // Le
+				tx_buf = c_apdu_le;
+				tx_buf_len = c_apdu_len;
+
+				// Next transmission
+				continue;
+			}
 			if (tx_buf == c_apdu) {
 				// C-TPDU header not yet available for APDU mode
 				memcpy(c_tpdu_header, c_apdu, 4);
-- 
2.43.0


From d5ba9487f91e13082caba93a2abf699d0e26aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 29/41] fix: avoid buffer overflow when converting date and
 time to string

---
 src/emv_strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 2848a90..52fcc01 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1806,7 +1806,7 @@ int emv_date_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		date_str[(i * 2) + 1] = '0' + digit;
 	}
-	date_str[(buf_len * 2) + 1] = 0;
+	date_str[buf_len * 2] = 0;
 
 	// Assume it's the 21st century; if it isn't, then hopefully we've at
 	// least addressed climate change...
@@ -1879,7 +1879,7 @@ int emv_time_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		time_str[(i * 2) + 1] = '0' + digit;
 	}
-	time_str[(buf_len * 2) + 1] = 0;
+	time_str[buf_len * 2] = 0;
 
 	// Hours
 	memcpy(str + offset, time_str, 2);
-- 
2.43.0


From 12fccdba3f914d3551df42b19227fb45e5522ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:00 +0000
Subject: [PATCH 30/41] fix: avoid buffer overflow when converting number to
 string

---
 src/emv_strings.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 52fcc01..ca3fe84 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1605,18 +1605,18 @@ static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
 		c = '0' + digit;
 
 		if (digit != 0 || found_first_digit) {
+			if (str_len < 2) {
+				// No space left for digit and NULL termination
+				*str = 0;
+				return -3;
+			}
+
 			*str = c;
 			++str;
 			--str_len;
 			found_first_digit = true;
 		}
 
-		if (str_len == 0) {
-			// No space left to NULL terminate
-			str[0] = 0;
-			return -3;
-		}
-
 		value %= divider;
 		divider /= 10;
 	}
-- 
2.43.0


From a3fe7885dfa0ff518107de27613040c6508cb857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:01 +0000
Subject: [PATCH 31/41] fix: avoid buffer overflow when converting track 2 to
 string

---
 src/emv_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index ca3fe84..c08d11b 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2856,6 +2856,11 @@ int emv_track2_equivalent_data_get_string(
 		return 0;
 	}
 
+	// Minimum string length
+	if (str_len < track2_len * 2 + 1) {
+		return -2;
+	}
+
 	// The easiest way to convert track2 data to a string is to simply extract
 	// each nibble and add 0x30 ('0') to create the equivalent ASCII character
 	// All ASCII digits from 0x30 to 0x3F are printable and it is only
-- 
2.43.0


From 65e635754334937fb21fcae57b0cbf9c097f7d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 32/41] fix: null terminate empty string lists

---
 src/emv_strings.c     | 5 +++++
 src/iso7816_strings.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index c08d11b..35f310b 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1999,6 +1999,11 @@ static void emv_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+
+	// NULL terminate empty string list
+	if (len) {
+		*itr->ptr = 0;
+	}
 }
 
 ATTRIBUTE_FORMAT_PRINTF(2, 3)
diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index ed23dde..5970a2a 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -35,6 +35,11 @@ static void iso7816_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+
+	// NULL terminate empty string list
+	if (len) {
+		*itr->ptr = 0;
+	}
 }
 
 static void iso7816_str_list_add(struct str_itr_t* itr, const char* str)
-- 
2.43.0


From eaf98e3e2f764c88beccdf01fe44ee9361a86a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 33/41] fix: validate C-APDU length before converting to string

---
 src/emv_strings.c     | 2 +-
 src/iso7816_strings.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 35f310b..3dffe4e 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5986,7 +5986,7 @@ int emv_capdu_get_string(
 
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See EMV Contact Interface Specification v1.0, 9.4.1
 		return -2;
diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index 5970a2a..cb97289 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -423,7 +423,7 @@ const char* iso7816_capdu_get_string(
 	}
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See ISO 7816-4:2005, 5.1
 		return NULL;
-- 
2.43.0


From 11a7eaa3e1cf340cd64951481cb65533eb0af647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:05 +0000
Subject: [PATCH 34/41] fix: validate length of Mastercard Third Party Data
 before reading device type

---
 src/emv_strings.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 3dffe4e..4f8be1d 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5166,7 +5166,6 @@ int emv_mastercard_third_party_data_get_string_list(
 	char country_str[128];
 	uint16_t unique_id;
 	bool is_product_extension = false;
-	size_t tpd_len_min;
 	size_t remaining_len;
 
 	if (!tpd || !tpd_len) {
@@ -5221,6 +5220,12 @@ int emv_mastercard_third_party_data_get_string_list(
 		char device_type[3];
 		const char* device_type_str;
 
+		// If Device Type is present, minimum field length is 7
+		if (tpd_len < 7) {
+			// Invalid Mastercard Third Party Data (field 9F6E) length
+			return 1;
+		}
+
 		memcpy(device_type, tpd_ptr, 2);
 		device_type[2] = 0; // NULL terminate
 
@@ -5232,18 +5237,7 @@ int emv_mastercard_third_party_data_get_string_list(
 			emv_str_list_add(&itr, "Device Type: %s", device_type);
 		}
 
-		// If Device Type is present, minimum field length is 7
-		tpd_len_min = 7;
-
 		tpd_ptr += 2;
-	} else {
-		// If Device Type is absent, minimum field length is 5
-		tpd_len_min = 5;
-	}
-
-	if (tpd_len < tpd_len_min) {
-		// Invalid Mastercard Third Party Data (field 9F6E) length
-		return 1;
 	}
 	remaining_len = tpd_len - (tpd_ptr - tpd);
 
-- 
2.43.0


From 6fbfb8197f919cabec6ef3fc49790d59e9e33d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:59 +0000
Subject: [PATCH 35/41] fix: avoid reading value of empty EMV field

---
 src/emv_strings.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 4f8be1d..5156525 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -397,7 +397,7 @@ int emv_tlv_get_info(
 				"The actual values to be used for the Transaction Type data "
 				"element are defined by the relevant payment system.";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -551,7 +551,7 @@ int emv_tlv_get_info(
 				"Indicates the type of account selected on the "
 				"terminal, coded as specified in Annex G";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -885,7 +885,7 @@ int emv_tlv_get_info(
 				"Indicates the type of cryptogram and the actions to be "
 				"performed by the terminal";
 			info->format = EMV_FORMAT_B;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -923,7 +923,7 @@ int emv_tlv_get_info(
 				"Indicates the environment of the terminal, its "
 				"communications capability, and its operational control";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -962,7 +962,7 @@ int emv_tlv_get_info(
 				"Indicates the method by which the PAN was entered, according "
 				"to the first two digits of the ISO 8583:1987 POS Entry Mode";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -1156,7 +1156,7 @@ int emv_tlv_get_info(
 					"resulting in a modified Tag '9F35', which is passed to "
 					"the card when requested.";
 				info->format = EMV_FORMAT_B;
-				if (!tlv->value) {
+				if (!tlv->value || !tlv->length) {
 					// Cannot use tlv->value[0], even if value_str is NULL.
 					// This is typically for Data Object List (DOL) entries that
 					// have been packed into TLV entries for this function to use.
-- 
2.43.0


From 1dca58a92fb375a2fed8883670a36c07df5da792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:00 +0000
Subject: [PATCH 36/41] fix: only stringify DF name as text if it is PSE or
 PPSE

---
 src/emv_strings.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 5156525..d802a0f 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -245,10 +245,11 @@ int emv_tlv_get_info(
 				"Identifies the name of the Dedicated File (DF) as described "
 				"in ISO/IEC 7816-4";
 			info->format = EMV_FORMAT_B;
-			if ((tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE))) ||
-				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)))
-			) {
-				if (value_str_len > tlv->length) {
+			if (tlv->value && (
+				(tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE)) == 0) ||
+				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)) == 0)
+			)) {
+				if (value_str && value_str_len > tlv->length) {
 					memcpy(value_str, tlv->value, tlv->length);
 					value_str[tlv->length] = 0;
 				}
-- 
2.43.0


From f1a0c67e6fbef9361302dffc8ff0e5b85097306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:13 +0000
Subject: [PATCH 37/41] fix: stop at a truncated reader property instead of
 reading past the property buffer

---
 src/pcsc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index eec1720..2aaa4fa 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -500,6 +500,10 @@ int pcsc_reader_get_property(
 			return 0;
 		}
 
+		if (tlv[1] > tlv_len - 2) {
+			// Invalid property length; no further properties
+			break;
+		}
 		tlv += (2 + tlv[1]);
 		tlv_len -= (2 + tlv[1]);
 	}
-- 
2.43.0


From 9440b1c6dab0919689f28c8ac75c76f58d1f2cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:14 +0000
Subject: [PATCH 38/41] fix: do not disconnect an uninitialised card handle
 when a reader cannot be connected

---
 src/pcsc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index 2aaa4fa..2876971 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -199,8 +199,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 	);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardConnect(SCARD_SHARE_DIRECT) failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
-		r = -2;
-		goto exit;
+		return -2;
 	}
 
 	// Request reader features
-- 
2.43.0


From ec07babda95eba4f5e732d2fbc72a1d30fcda5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:14 +0000
Subject: [PATCH 39/41] fix: disconnect the card when connecting fails during
 UID retrieval

---
 src/pcsc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index 2876971..7b45c9f 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -755,6 +755,7 @@ int pcsc_reader_connect(pcsc_reader_ctx_t reader_ctx)
 		);
 		if (r < 0) {
 			// Error during UID retrieval; assume card error
+			pcsc_reader_disconnect(reader);
 			return r;
 		} else if (r > 0) {
 			// Function not supported; assume contact card
-- 
2.43.0


From fdcfa9ce964401db06e333c076414c69f09a7480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:15 +0000
Subject: [PATCH 40/41] fix: report exhausted memory when the PC/SC context is
 created

---
 src/pcsc.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index 7b45c9f..00f616e 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -110,6 +110,9 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	*ctx = malloc(sizeof(struct pcsc_t));
 	pcsc = *ctx;
+	if (!pcsc) {
+		return -1;
+	}
 	memset(pcsc, 0, sizeof(*pcsc));
 
 	// Create the PC/SC context
@@ -130,6 +133,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and retrieve the reader list
 	pcsc->reader_strings = malloc(pcsc->reader_strings_size);
+	if (!pcsc->reader_strings) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	result = SCardListReaders(pcsc->context, NULL, pcsc->reader_strings, &pcsc->reader_strings_size);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardListReaders() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
@@ -147,6 +154,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and populate reader objects
 	pcsc->readers = calloc(pcsc->reader_count, sizeof(struct pcsc_reader_t));
+	if (!pcsc->readers) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	memset(pcsc->readers, 0, pcsc->reader_count * sizeof(struct pcsc_reader_t));
 	current_reader_name = pcsc->reader_strings;
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
@@ -157,6 +168,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and populate reader states
 	pcsc->reader_states = calloc(pcsc->reader_count, sizeof(SCARD_READERSTATE));
+	if (!pcsc->reader_states) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	memset(pcsc->reader_states, 0, pcsc->reader_count * sizeof(SCARD_READERSTATE));
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
 		pcsc->reader_states[i].szReader = pcsc->readers[i].name;
-- 
2.43.0


From 22665a36612e8de0a7ee28e7311b29e642fefc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:11 +0000
Subject: [PATCH 41/41] fix: subtract the length of the current reader
 property, not of the next one

---
 src/pcsc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index 00f616e..228a9c6 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -518,8 +518,8 @@ int pcsc_reader_get_property(
 			// Invalid property length; no further properties
 			break;
 		}
-		tlv += (2 + tlv[1]);
 		tlv_len -= (2 + tlv[1]);
+		tlv += (2 + tlv[1]);
 	}
 
 	// Otherwise, retrieve from IFD_PIN_PROPERTIES
-- 
2.43.0

