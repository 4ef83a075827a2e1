From a3d7237af6af73f18536ed7f14b4449ee552539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:44 +0000
Subject: [PATCH 01/72] fix: relative-10 decodes the fourth of ten 3-bit
 integers from the wrong bit offset

---
 source/compress_integer_relative_10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_relative_10.cpp b/source/compress_integer_relative_10.cpp
index 2d67112..2943b2a 100644
--- a/source/compress_integer_relative_10.cpp
+++ b/source/compress_integer_relative_10.cpp
@@ -243,7 +243,7 @@ namespace JASS
 						*destination++ = value & 0x7;
 						*destination++ = (value >> 3) & 0x7;
 						*destination++ = (value >> 6) & 0x7;
-						*destination++ = (value >> 8) & 0x7;
+						*destination++ = (value >> 9) & 0x7;
 						*destination++ = (value >> 12) & 0x7;
 						*destination++ = (value >> 15) & 0x7;
 						*destination++ = (value >> 18) & 0x7;
-- 
2.43.0


From bfac6cca5f6856e7caf3fe5c829e738a680782b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:44 +0000
Subject: [PATCH 02/72] fix: carryover-12 masks its 30-bit payload down to 28
 bits when decoding

---
 source/compress_integer_carryover_12.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_carryover_12.cpp b/source/compress_integer_carryover_12.cpp
index ed7b2c4..01dd3ad 100644
--- a/source/compress_integer_carryover_12.cpp
+++ b/source/compress_integer_carryover_12.cpp
@@ -575,7 +575,7 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 					payload = *source >> 2;
 					break;
 				case 23:
-					*(destination + 0) = payload >> 0 & 0x0FFFFFFF;
+					*(destination + 0) = payload >> 0 & 0x3FFFFFFF;
 					destination++;
 
 #ifdef CARRY_DEBUG
-- 
2.43.0


From 6e297ba25ebd7d9d6c8864528ec7c5939531c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:44 +0000
Subject: [PATCH 03/72] fix: carry-8b decodes the fourth 15-bit integer of
 selector p60 from the wrong bit offset

---
 source/compress_integer_carry_8b.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_carry_8b.cpp b/source/compress_integer_carry_8b.cpp
index 92533bb..2e98ed3 100644
--- a/source/compress_integer_carry_8b.cpp
+++ b/source/compress_integer_carry_8b.cpp
@@ -566,7 +566,7 @@ printf("[%d] Decode:%d\n", (int)(destination - destination_at_start), (int)(sele
 					*(destination + 0) = payload >> 0 & 0x7FFF;
 					*(destination + 1) = payload >> 15 & 0x7FFF;
 					*(destination + 2) = payload >> 30 & 0x7FFF;
-					*(destination + 3) = payload >> 15 & 0x7FFF;
+					*(destination + 3) = payload >> 45 & 0x7FFF;
 					destination += 4;
 
 					source++;
-- 
2.43.0


From d3e0d1d4ee168556fe55e3385497bf9787d3d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:09 +0000
Subject: [PATCH 04/72] fix: lyck-16 truncates an integer when its neighbours
 are narrow

---
 source/compress_integer_lyck_16.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/compress_integer_lyck_16.cpp b/source/compress_integer_lyck_16.cpp
index ef9c462..f20e2a4 100644
--- a/source/compress_integer_lyck_16.cpp
+++ b/source/compress_integer_lyck_16.cpp
@@ -34,7 +34,7 @@ namespace JASS
 				return 0;
 
 			uint32_t integers_to_encode;
-			size_t cumulative = 0;
+			size_t widest = 0;
 			uint32_t ending = source_integers > 16 ? 16 : (uint32_t)source_integers;
 			for (integers_to_encode = 0; integers_to_encode < ending; integers_to_encode++)
 				{
@@ -48,8 +48,9 @@ namespace JASS
 				/*
 					Check to see if we still fit in the current word
 				*/
-				cumulative += bits;
-				if (cumulative > 16)
+				if (bits > widest)
+					widest = bits;
+				if (widest * (integers_to_encode + 1) > 16)		// every integer in the codeword gets the same number of bits
 					break;
 				}
 
-- 
2.43.0


From 2f7aa6e7318e64dc17b1153a44bbe4570069eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:09 +0000
Subject: [PATCH 05/72] fix: packed simple-9 and simple-16 truncate a lone 2^28
 instead of refusing it

---
 source/compress_integer_simple_16_packed.cpp | 2 +-
 source/compress_integer_simple_9_packed.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_simple_16_packed.cpp b/source/compress_integer_simple_16_packed.cpp
index 7bb0fde..164e563 100644
--- a/source/compress_integer_simple_16_packed.cpp
+++ b/source/compress_integer_simple_16_packed.cpp
@@ -132,7 +132,7 @@ namespace JASS
 			/*
 				Check for overflow - and if not then just store 1 integer.
 			*/
-			if (*source > 1 << 28)
+			if (*source >= 1 << 28)
 				return 0;
 
 			/*
diff --git a/source/compress_integer_simple_9_packed.cpp b/source/compress_integer_simple_9_packed.cpp
index c984ffd..9dba8ba 100644
--- a/source/compress_integer_simple_9_packed.cpp
+++ b/source/compress_integer_simple_9_packed.cpp
@@ -125,7 +125,7 @@ namespace JASS
 			/*
 				Check for overflow - and if not then just store 1 integer.
 			*/
-			if (*source > 1 << 28)
+			if (*source >= 1 << 28)
 				return 0;
 				
 			/*
-- 
2.43.0


From 3105fa144c577682cdafc2fd82a0496308a10a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:31 +0000
Subject: [PATCH 06/72] fix: relative-10 writes past a buffer whose size is not
 a multiple of four

---
 source/compress_integer_relative_10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_relative_10.cpp b/source/compress_integer_relative_10.cpp
index 2943b2a..4fff96e 100644
--- a/source/compress_integer_relative_10.cpp
+++ b/source/compress_integer_relative_10.cpp
@@ -127,7 +127,7 @@ namespace JASS
 		*/
 		for (words_in_compressed_string = 1; pos < source_integers; words_in_compressed_string++)  //outer loop: loops thru' all the elements in source[]
 			{
-			if (into >= end)
+			if (into + 1 > end)
 				return 0;
 			needed = 0;
 			for (term = 0; term < 30 && pos + term < source_integers; term++)
-- 
2.43.0


From 8958750b641b1ca1ca9347bf89c12c5d69c1a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:31 +0000
Subject: [PATCH 07/72] fix: packed simple encoders ignore the buffer size when
 given one integer

---
 source/compress_integer_simple_16_packed.cpp | 6 ++++++
 source/compress_integer_simple_8b_packed.cpp | 6 ++++++
 source/compress_integer_simple_9_packed.cpp  | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/source/compress_integer_simple_16_packed.cpp b/source/compress_integer_simple_16_packed.cpp
index 164e563..8a0c030 100644
--- a/source/compress_integer_simple_16_packed.cpp
+++ b/source/compress_integer_simple_16_packed.cpp
@@ -129,6 +129,12 @@ namespace JASS
 			if (source_integers == 0)
 				return 0;
 				
+			/*
+				Check that there's room for one codeword.
+			*/
+			if (destination_length < sizeof(*into))
+				return 0;
+
 			/*
 				Check for overflow - and if not then just store 1 integer.
 			*/
diff --git a/source/compress_integer_simple_8b_packed.cpp b/source/compress_integer_simple_8b_packed.cpp
index f535d73..0400c2d 100644
--- a/source/compress_integer_simple_8b_packed.cpp
+++ b/source/compress_integer_simple_8b_packed.cpp
@@ -149,6 +149,12 @@ namespace JASS
 			if (source_integers == 0)
 				return 0;
 				
+			/*
+				Check that there's room for one codeword.
+			*/
+			if (destination_length < sizeof(*into))
+				return 0;
+
 			/*
 				Check for overflow - and if not then just store 1 integer.
 				Note: Coverity Scan complains about the line below because integer is a uint32_t and a uin32_t cannot exceed 1<<60
diff --git a/source/compress_integer_simple_9_packed.cpp b/source/compress_integer_simple_9_packed.cpp
index 9dba8ba..d498f69 100644
--- a/source/compress_integer_simple_9_packed.cpp
+++ b/source/compress_integer_simple_9_packed.cpp
@@ -122,6 +122,12 @@ namespace JASS
 			if (source_integers == 0)
 				return 0;
 				
+			/*
+				Check that there's room for one codeword.
+			*/
+			if (destination_length < sizeof(*into))
+				return 0;
+
 			/*
 				Check for overflow - and if not then just store 1 integer.
 			*/
-- 
2.43.0


From fccaeb695e29e05434618b43785c31f32adad7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 08/72] fix: elias delta SIMD lets the selectors and the
 payload overrun each other and the buffer

---
 source/compress_integer_elias_delta_simd.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/compress_integer_elias_delta_simd.cpp b/source/compress_integer_elias_delta_simd.cpp
index 4b14046..a20d508 100644
--- a/source/compress_integer_elias_delta_simd.cpp
+++ b/source/compress_integer_elias_delta_simd.cpp
@@ -102,7 +102,6 @@ namespace JASS
 		uint64_t accumulated_selector = 0;
 
 		uint32_t *destination = reinterpret_cast<uint32_t *>(encoded);
-		uint32_t *end_of_destination = (uint32_t *)((uint8_t *)encoded + encoded_buffer_length);
 		uint32_t carryover = 0;
 		uint32_t actual_max_width = 0;
 
@@ -125,7 +124,7 @@ namespace JASS
 			/*
 				Check for overflow of the output buffer
 			*/
-			if (destination > end_of_destination)
+			if (destination > selector)
 				return 0;
 
 			/*
@@ -180,9 +179,9 @@ namespace JASS
 					push_selector(selector, max_width, selector_bits_used, accumulated_selector);
 
 				/*
-					Check for underflow of the selector pointr
+					Check that the selectors have not run into the payload
 				*/
-				if (selector < reinterpret_cast<uint32_t *>(encoded))
+				if (selector < destination)
 					return 0;
 
 				/*
@@ -228,6 +227,12 @@ namespace JASS
 				break;
 			}
 
+		/*
+			Check that the selectors fit after the payloads
+		*/
+		if (destination > selector)
+			return 0;
+
 		/*
 			Flush the last selector the move the selectors to the end of the payloads
 		*/
-- 
2.43.0


From 0d48f4697ab2f08ed4e90b10e9d34095d9c69b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 09/72] fix: elias gamma SIMD with variable byte drops the tail
 when it does not fit

---
 source/compress_integer_elias_gamma_simd_vb.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_elias_gamma_simd_vb.cpp b/source/compress_integer_elias_gamma_simd_vb.cpp
index 6769573..1d0cbb6 100755
--- a/source/compress_integer_elias_gamma_simd_vb.cpp
+++ b/source/compress_integer_elias_gamma_simd_vb.cpp
@@ -55,6 +55,12 @@ namespace JASS
 		uint32_t *destination = (uint32_t *)encoded;
 		uint32_t *end_of_destination = (uint32_t *)((uint8_t *)encoded + encoded_buffer_length);
 
+		/*
+			Make sure there is space for the length of the variable byte part
+		*/
+		if (encoded_buffer_length < sizeof(*destination))
+			return 0;
+
 		/*
 			Store the length of the variable byte part
 		*/
@@ -155,7 +161,7 @@ namespace JASS
 							if (vbyte_size < elias_size)
 								{
 								// re-code the codeword
-								vbyte_size = compress_integer_variable_byte::encode(selector, end_of_destination - selector, array_at_start_of_codeword, elements_at_start_of_codeword);
+								vbyte_size = compress_integer_variable_byte::encode(selector, reinterpret_cast<uint8_t *>(end_of_destination) - reinterpret_cast<uint8_t *>(selector), array_at_start_of_codeword, elements_at_start_of_codeword);
 								destination = selector;
 								}
 							else
@@ -167,8 +173,11 @@ namespace JASS
 								encodings[slice - 1] += encodings[slice];
 								encodings[slice] = 0;
 								*selector = compute_selector(encodings);
-								vbyte_size = compress_integer_variable_byte::encode(destination, end_of_destination - selector, array, elements);
+								vbyte_size = compress_integer_variable_byte::encode(destination, reinterpret_cast<uint8_t *>(end_of_destination) - reinterpret_cast<uint8_t *>(destination), array, elements);
 								}
+							if (vbyte_size == 0)
+								return 0;			// the variable byte part didn't fit
+
 							uint32_t *vb_length_locaton = (uint32_t *)encoded;
 							*vb_length_locaton = vbyte_size;
 
-- 
2.43.0


From 44224d2d729995b488768eb9cff12c0be1b9219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 10/72] fix: elias gamma and elias delta write beyond the end
 of the destination

---
 source/compress_integer_elias_delta.cpp | 4 ++++
 source/compress_integer_elias_gamma.cpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/source/compress_integer_elias_delta.cpp b/source/compress_integer_elias_delta.cpp
index 9a5f799..898e33e 100644
--- a/source/compress_integer_elias_delta.cpp
+++ b/source/compress_integer_elias_delta.cpp
@@ -61,6 +61,8 @@ namespace JASS
 			size_t shift = into % 8;
 			uint64_t pattern = zig_zag << shift;
 			uint64_t *address = reinterpret_cast<uint64_t *>(encoded + (into / 8));
+			if (reinterpret_cast<uint8_t *>(address + 1) > encoded + encoded_buffer_length)
+				return 0;
 			*address |= pattern;
 
 			into += unary + 1;
@@ -71,6 +73,8 @@ namespace JASS
 			shift = into % 8;
 			pattern = (*value & ~(1ULL << (n - 1))) << shift;
 			address = reinterpret_cast<uint64_t *>(encoded + (into / 8));
+			if (reinterpret_cast<uint8_t *>(address + 1) > encoded + encoded_buffer_length)
+				return 0;
 			*address |= pattern;
 
 			into += n - 1;
diff --git a/source/compress_integer_elias_gamma.cpp b/source/compress_integer_elias_gamma.cpp
index 51c3758..d0fbc24 100644
--- a/source/compress_integer_elias_gamma.cpp
+++ b/source/compress_integer_elias_gamma.cpp
@@ -55,6 +55,8 @@ namespace JASS
 			size_t shift = into % 8;
 			uint64_t pattern = zig_zag << shift;
 			uint64_t *address = reinterpret_cast<uint64_t *>(encoded + (into / 8));
+			if (reinterpret_cast<uint8_t *>(address + 1) > encoded + encoded_buffer_length)
+				return 0;
 			*address |= pattern;
 			into += n + 1;
 			}
-- 
2.43.0


From d8dd16a73236e4d2438676c5a78973b1098b0548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 11/72] fix: stream vbyte ignores the size of the destination

---
 source/compress_integer_stream_vbyte.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/compress_integer_stream_vbyte.cpp b/source/compress_integer_stream_vbyte.cpp
index b66ffbf..a42c37c 100644
--- a/source/compress_integer_stream_vbyte.cpp
+++ b/source/compress_integer_stream_vbyte.cpp
@@ -30,6 +30,9 @@ namespace JASS
 	*/
 	size_t compress_integer_stream_vbyte::encode(void *encoded_as_void, size_t encoded_buffer_length, const integer *source, size_t source_integers)
 		{
+		if (encoded_buffer_length < streamvbyte::streamvbyte_max_compressedbytes(static_cast<uint32_t>(source_integers)))
+			return 0;
+
 		return streamvbyte::streamvbyte_encode(const_cast<integer *>(source), static_cast<uint32_t>(source_integers), static_cast<uint8_t *>(encoded_as_void));
 		}
 
-- 
2.43.0


From 3933a697f35922e6093393ac2f94fbce87175368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:46 +0000
Subject: [PATCH 12/72] fix: packed simple-9 and simple-16 truncate a final
 integer that is too large

---
 source/compress_integer_simple_16_packed.cpp | 2 ++
 source/compress_integer_simple_9_packed.cpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/compress_integer_simple_16_packed.cpp b/source/compress_integer_simple_16_packed.cpp
index 8a0c030..92a3084 100644
--- a/source/compress_integer_simple_16_packed.cpp
+++ b/source/compress_integer_simple_16_packed.cpp
@@ -165,6 +165,8 @@ namespace JASS
 			Init last value to pack-by-self
 		*/
 		pos = source_integers - 1;
+		if (source[pos] >= 1 << 28)
+			return 0;
 		blocks_needed[pos] = 0;
 		masks[pos] = 15;
 		
diff --git a/source/compress_integer_simple_9_packed.cpp b/source/compress_integer_simple_9_packed.cpp
index d498f69..51746eb 100644
--- a/source/compress_integer_simple_9_packed.cpp
+++ b/source/compress_integer_simple_9_packed.cpp
@@ -158,6 +158,8 @@ namespace JASS
 			init last value to pack-by-self
 		*/
 		pos = source_integers - 1;
+		if (source[pos] >= 1 << 28)
+			return 0;
 		blocks_needed[pos] = 0;
 		masks[pos] = 8;
 		
-- 
2.43.0


From ea18590d0e71749570beebeee70f9b02dadf224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:25 +0000
Subject: [PATCH 13/72] fix: accumulator_2d with query ids re-uses stale flags
 after a second init()

---
 source/accumulator_2d.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/accumulator_2d.h b/source/accumulator_2d.h
index c0c364e..4f3886e 100755
--- a/source/accumulator_2d.h
+++ b/source/accumulator_2d.h
@@ -236,6 +236,9 @@ namespace JASS
 				/*
 					Clear the dirty flags ready for first use.
 				*/
+#ifdef USE_QUERY_IDS
+				query_id = std::numeric_limits<decltype(query_id)>::max();		// the ids from before this init() mean nothing to this set of flags
+#endif
 				rewind();
 				}
 
-- 
2.43.0


From d3db46014ea5933fcb659e92a8adecf4da1962b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:58 +0000
Subject: [PATCH 14/72] fix: beap::find() of a key smaller than every other
 reads outside the beap

---
 source/beap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/beap.h b/source/beap.h
index bdc0718..773dede 100644
--- a/source/beap.h
+++ b/source/beap.h
@@ -239,7 +239,7 @@ namespace JASS
 						current_location -= current_height;
 						current_height--;
 						end_of_row -= current_height + 2;
-						if (current_location < 0)
+						if (current_location > end_of_row)
 							return -1;
 						}
 					else if (key > array[current_location])
-- 
2.43.0


From 88b424226eac276e0b6ed0786ccf5d2fc1fb7c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:24 +0000
Subject: [PATCH 15/72] fix: a heap filled using an oracle lets in documents
 that score less than those it holds

---
 source/query_heap_clean.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/query_heap_clean.h b/source/query_heap_clean.h
index 4b59683..8d8a0b3 100755
--- a/source/query_heap_clean.h
+++ b/source/query_heap_clean.h
@@ -320,9 +320,10 @@ namespace JASS
 						if (needed_for_top_k == 0)
 							{
 							top_results.make_heap();
-							if (top_k_lower_bound != 1)
-								throw Done(); /* We must be using the Oracle, and we must have filled the top-k and so we can stop processing this query. */
+							bool oracle = top_k_lower_bound != 1;
 							top_k_lower_bound = *accumulator_pointers[0]; /* set the new bottom of heap value */
+							if (oracle)
+								throw Done(); /* We must be using the Oracle, and we must have filled the top-k and so we can stop processing this query. */
 							}
 						}
 					return;
-- 
2.43.0


From fbe29cb217e98416540d29737d9e9c397771203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 16/72] fix: the codec for elias gamma SIMD with variable byte
 is registered under its own name

serialise_jass_v1::get_compressor('g') asks for "Group Elias Gamma SIMD with Variable Byte", which did not exist, so get_by_name() silently returned Carryover-12.
---
 source/compress_integer_all.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_all.cpp b/source/compress_integer_all.cpp
index 85b0ee5..78c3e22 100644
--- a/source/compress_integer_all.cpp
+++ b/source/compress_integer_all.cpp
@@ -48,7 +48,7 @@ namespace JASS
 			{"-cD",    "--compress_elias_delta_bitwise", "Elias delta with bit instuctions (slow)"},
 			{"-ce",    "--compress_elias_delta_SIMD", "Group Elias Delta SIMD"},
 			{"-cE",    "--compress_elias_gamma_SIMD", "Group Elias Gamma SIMD"},
-			{"-cF",    "--compress_elias_gamma_SIMD_vb", "Group Elias Delta SIMD with Variable Byte"},
+			{"-cF",    "--compress_elias_gamma_SIMD_vb", "Group Elias Gamma SIMD with Variable Byte"},
 			{"-cg",    "--compress_elias_gamma", "Elias gamma"},
 			{"-cG",    "--compress_elias_gamma_bitwise", "Elias gamma with bit instuctions (slow)"},
 			{"-cn",    "--compress_none", "None"},
-- 
2.43.0


From 75d949673e2a10f20bd466823919bdc98a828030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 17/72] fix: the first occurrence of a term in a document is
 limited to the largest impact, as the later ones are

---
 source/index_postings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/index_postings.h b/source/index_postings.h
index cd15fc1..bc38214 100644
--- a/source/index_postings.h
+++ b/source/index_postings.h
@@ -141,7 +141,7 @@ namespace JASS
 
 					for (uint8_t *byte = space; byte < ending; byte++)
 						document_ids.push_back(*byte);
-					term_frequencies.push_back(amount);
+					term_frequencies.push_back(JASS::maths::minimum<size_t>(amount, index_postings_impact::largest_impact));
 
 					highest_document = document_id;
 					}
-- 
2.43.0


From 4e26ba964cfd1a05a75da5f9b8d2c34b4abc40ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 18/72] fix: a one character word or number at the end of a
 document took in the byte after the document

---
 source/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 102b07a..876c8b8 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -137,7 +137,7 @@ namespace JASS
 			*buffer_pos++ = ascii::tolower(*current);
 			current++;
 		
-			while (ascii::isalpha(*current))
+			while (current < end_of_document && ascii::isalpha(*current))
 				{
 				if (buffer_pos < buffer_end)
 					*buffer_pos++ = ascii::tolower(*current);				// won't write on overflow
@@ -167,7 +167,7 @@ namespace JASS
 			*buffer_pos++ = *current;
 			current++;
 		
-			while (ascii::isdigit(*current))
+			while (current < end_of_document && ascii::isdigit(*current))
 				{
 				if (buffer_pos < buffer_end)
 					*buffer_pos++ = *current;				// won't write on overflow
-- 
2.43.0


From 13f01e543cc920da86420e82168538d68c668f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 19/72] fix: reading past the end of a document that ends in
 the quoted attribute of a tag

---
 source/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 876c8b8..2c5c269 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -244,7 +244,8 @@ namespace JASS
 								current++;
 							while (current < end_of_document && *current != '\'');		// the skip over the '"' happens when this loop exits.
 							
-						current++;
+						if (current < end_of_document)
+							current++;
 						}
 						
 					/*
-- 
2.43.0


From f378aeffe04b267219c03949f256bd456b8823ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 20/72] fix: the Unicode decoder read the first byte without
 checking that there is one

---
 source/unicode.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/unicode.h b/source/unicode.h
index ccdfa99..a21804d 100644
--- a/source/unicode.h
+++ b/source/unicode.h
@@ -121,6 +121,12 @@ namespace JASS
 			*/
 			static size_t isutf8(const void *utf8_start, const void *end_of_buffer)
 				{
+				/*
+					there is nothing to look at if we are already at the end of the buffer
+				*/
+				if (utf8_start >= end_of_buffer)
+					return 0;
+
 				/*
 					get the length
 				*/
-- 
2.43.0


From 50e2cc133aeb1a402f5d4cc853270550a5a50dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:49 +0000
Subject: [PATCH 21/72] fix: threads added themselves to the shared map of
 thread local data without synchronisation

---
 anytime/JASS_anytime_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 8b18ae7..0f7b6fe 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -414,6 +414,9 @@ JASS_ERROR JASS_anytime_api::search(std::vector<JASS_anytime_thread_result> &out
 		/*
 			Multiple threads, so start each worker
 		*/
+		for (size_t which = 0; which < thread_count ; which++)
+			get_thread_local_data(which);		// must exist before the threads start because adding to the map is not thread safe
+
 		for (size_t which = 0; which < thread_count ; which++)
 			thread_pool.push_back(JASS::thread(anytime_bootstrap, this, std::ref(output[which]), std::ref(query_list), which));
 
-- 
2.43.0


From b437fbc4cd0575e508ee4c70f900d70524069b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:09 +0000
Subject: [PATCH 22/72] fix: the budget of one query, when relative, was kept
 in a member shared by all threads

---
 anytime/JASS_anytime_api.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 0f7b6fe..5cb0f76 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -572,8 +572,9 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 		/*
 			Check to see if we've got a rho stopping condition relative to the number of postings in this query.
 		*/
+		size_t postings_to_process_for_query = postings_to_process;
 		if (relative_postings_to_process != 1)
-			postings_to_process = total_postings_for_query * relative_postings_to_process;
+			postings_to_process_for_query = total_postings_for_query * relative_postings_to_process;
 
 		/*
 			Process the segments
@@ -590,7 +591,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 				The definition of "enough" is that processing the next segment will exceed postings_to_process so we wil be over
 				the "time limit" so we must not do it.
 			*/
-			if (postings_processed + header->segment_frequency > postings_to_process)
+			if (postings_processed + header->segment_frequency > postings_to_process_for_query)
 				break;
 			postings_processed += header->segment_frequency;
 
-- 
2.43.0


From f5d5811564d91fbfa54c557b4f59072221b01342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:09 +0000
Subject: [PATCH 23/72] fix: an empty query ended the list of queries, those
 after it were never searched

---
 anytime/JASS_anytime_query.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anytime/JASS_anytime_query.h b/anytime/JASS_anytime_query.h
index f297e37..3184208 100644
--- a/anytime/JASS_anytime_query.h
+++ b/anytime/JASS_anytime_query.h
@@ -94,7 +94,11 @@ class JASS_anytime_query
 					{
 					uint8_t expected = false;
 					if (list[starting_from].taken.compare_exchange_strong(expected, true))
+						{
+						if (list[starting_from].query.size() == 0)
+							break;															// an empty query has no results, and the empty string is the end of the list
 						return list[starting_from].query;
+						}
 					}
 				starting_from++;
 				}
-- 
2.43.0


From 513b6c8b6b7ead85e5f89a351161e259c920c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:09 +0000
Subject: [PATCH 24/72] fix: searching for the empty query dereferenced the end
 of an empty map

---
 anytime/JASS_anytime_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 5cb0f76..caf9f43 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -365,6 +365,9 @@ JASS_anytime_result JASS_anytime_api::search(const std::string &query)
 	query_list.push_back(query);
 	anytime(output, query_list, 0);
 
+	if (output.results.empty())
+		return JASS_anytime_result();
+
 	return output.results.begin()->second;
 	}
 
-- 
2.43.0


From 392640330bd4de242ddba5b0f4038bc91ec4de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:09 +0000
Subject: [PATCH 25/72] fix: an index that could not be read was reported as
 loaded

---
 anytime/JASS_anytime_api.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index caf9f43..73bd344 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -111,7 +111,12 @@ JASS_ERROR JASS_anytime_api::load_index(size_t index_version, const std::string
 				return JASS_ERROR_BAD_INDEX_VERSION;
 			}
 
-		index->read_index(directory);
+		if (index->read_index(directory) == 0)
+			{
+			delete index;
+			index = nullptr;
+			return JASS_ERROR_FAIL;
+			}
 
 		if (index->document_count() > JASS::query::MAX_DOCUMENTS)
 			{
@@ -129,6 +134,8 @@ JASS_ERROR JASS_anytime_api::load_index(size_t index_version, const std::string
 		}
 	catch (...)
 		{
+		delete index;
+		index = nullptr;
 		return JASS_ERROR_FAIL;
 		}
 	}
-- 
2.43.0


From ac3beadf651668d8d1fef1523fa7a0c57e9de694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:09 +0000
Subject: [PATCH 26/72] fix: a failure to load the oracle scores left a pointer
 to freed memory

---
 anytime/JASS_anytime_api.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 73bd344..cf8a95c 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -148,8 +148,9 @@ JASS_ERROR JASS_anytime_api::load_oracle_scores(std::string filename)
 	{
 	try
 		{
+		auto *scores = new JASS::top_k_limit(filename);
 		delete precomputed_minimum_rsv_table;
-		precomputed_minimum_rsv_table = new JASS::top_k_limit(filename);
+		precomputed_minimum_rsv_table = scores;
 		}
 	catch(...)
 		{
-- 
2.43.0


From 19cc36de0e92692b8bccbbde8b21fa848defb36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:09 +0000
Subject: [PATCH 27/72] fix: looking up an oracle score changed the table the
 threads share

---
 source/top_k_limit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/top_k_limit.h b/source/top_k_limit.h
index 5bb4866..90db0f6 100644
--- a/source/top_k_limit.h
+++ b/source/top_k_limit.h
@@ -74,7 +74,8 @@ namespace JASS
 			*/
 			uint32_t operator[](std::string query_id)
 				{
-				return table[query_id];
+				auto found = table.find(query_id);				// operator[] would change the table, which threads share
+				return found == table.end() ? 0 : found->second;
 				}
 
 			/*
-- 
2.43.0


From 97454dcba5c1aeac2a232cfc9b7fd6f2cec2023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:09 +0000
Subject: [PATCH 28/72] fix: an oracle line without a space dereferenced a null
 pointer

---
 source/top_k_limit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/top_k_limit.cpp b/source/top_k_limit.cpp
index dc921e7..c2944c2 100644
--- a/source/top_k_limit.cpp
+++ b/source/top_k_limit.cpp
@@ -44,6 +44,8 @@ namespace JASS
 				Then has a space
 			*/
 			uint8_t *rsv_position = (uint8_t *)strchr((char *)query_id, ' ');
+			if (rsv_position == nullptr)
+				continue;							// a line without a score
 			*rsv_position++ = '\0';
 			while (isspace(*rsv_position))
 				rsv_position++;
-- 
2.43.0


From 1ad7bffd7f9452bff2b9c11f1bdc3ef5daf4ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:44 +0000
Subject: [PATCH 29/72] fix: an oracle score too large for an accumulator was
 truncated

---
 anytime/JASS_anytime_api.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index cf8a95c..934bde3 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -576,6 +576,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 			smallest_possible_rsv = smallest_possible_rsv == 0 ? 1 : smallest_possible_rsv;
 			}
 		rsv_at_k = rsv_at_k == 0 ? 1 : rsv_at_k;			// rsv_at_k cannot be 0 (because at least one search term must be in the document)
+		rsv_at_k = JASS::maths::minimum(rsv_at_k, (uint32_t)JASS::query::MAX_RSV);			// a score cannot be larger than what an accumulator holds
 
 		local.jass_query->rewind(smallest_possible_rsv, rsv_at_k, largest_possible_rsv);
 //std::cout << "MAXRSV:" << largest_possible_rsv << " MINRSV:" << smallest_possible_rsv << "\n";
-- 
2.43.0


From 4ac14558223dd600dbb5634c2c33657e9e208d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 30/72] fix: a primary key of only white space crashed the TREC
 reader

---
 source/instream_document_trec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/instream_document_trec.cpp b/source/instream_document_trec.cpp
index ac36af1..44f314b 100644
--- a/source/instream_document_trec.cpp
+++ b/source/instream_document_trec.cpp
@@ -151,9 +151,9 @@ namespace JASS
 			/*
 				Trim whitespace from the start and end of the primary key.
 			*/
-			while (isspace(*document_id_start) && document_id_start < document_end)			// trim early whitespace
+			while (document_id_start < document_id_end && isspace(*document_id_start))			// trim early whitespace
 				document_id_start++;
-			while (isspace(*(document_id_end - 1)) && document_id_end > document_start)				// trip trailing whitespace
+			while (document_id_end > document_id_start && isspace(*(document_id_end - 1)))				// trip trailing whitespace
 				document_id_end--;
 			}
 
-- 
2.43.0


From 224484a1ddd5806cfe481587495f91b503d71bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 31/72] fix: the TREC reader lost the rest of the collection
 after a short read, text between documents or a document larger than its
 buffer

---
 source/instream_document_trec.cpp | 50 ++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/source/instream_document_trec.cpp b/source/instream_document_trec.cpp
index 44f314b..f9e7033 100644
--- a/source/instream_document_trec.cpp
+++ b/source/instream_document_trec.cpp
@@ -82,54 +82,64 @@ namespace JASS
 	*/
 	void instream_document_trec::read(document &object)
 		{
-		uint8_t *unread_data = buffer + buffer_used;
-
 		/*
 			Find the start tag
 		*/
 		uint8_t *document_start;
-		if ((document_start = std::search(unread_data, buffer_end, document_start_tag.c_str(), document_start_tag.c_str() + document_start_tag.size())) == buffer_end)
+		while ((document_start = std::search(buffer + buffer_used, buffer_end, document_start_tag.c_str(), document_start_tag.c_str() + document_start_tag.size())) == buffer_end)
 			{
 			/*
 				We might be at the end of a buffer and half-way through a tag so we copy the remainder of the file to the
-				start of the buffer and fill the remainder.
+				start of the buffer and fill the remainder.  If the buffer is full (and there's no start tag in it) then all
+				that can matter is the start of a tag right at the end.
 			*/
-			memmove(buffer, unread_data, buffer_size - buffer_used);
-			buffer_end -= buffer_used;
+			size_t bytes_to_keep = buffer_end - (buffer + buffer_used);
+			if (bytes_to_keep >= buffer_size)
+				bytes_to_keep = document_start_tag.size() - 1;
+			memmove(buffer, buffer_end - bytes_to_keep, bytes_to_keep);
+			buffer_end = buffer + bytes_to_keep;
 			buffer_used = 0;
-			
-			fetch(buffer_end, buffer + buffer_size - buffer_end);
-			unread_data = buffer;
-		
-			if ((document_start = std::search(unread_data, buffer_end, document_start_tag.c_str(), document_start_tag.c_str() + document_start_tag.size())) == buffer_end)
+
+			fetch(buffer_end, buffer_size - bytes_to_keep);
+			if (buffer_end == buffer + bytes_to_keep)
 				{
 				/*
-					Most probably end of file.
+					End of file.
 				*/
 				object.primary_key = object.contents = slice();
 				return;
 				}
-			buffer_used = document_start_tag.size();
 			}
 
 		/*
 			Find the end tag
 		*/
 		uint8_t *document_end;
-		if ((document_end = std::search(document_start, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
+		while ((document_end = std::search(document_start, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
 			{
 			/*
 				This happens when we move find the start tag in the buffer, but the end tag is not in memory.  We play the 
-				same game as above and shift the start tag to the start of the buffer.
+				same game as above and shift the start tag to the start of the buffer (of a larger buffer if the document fills it).
 			*/
-			memmove(buffer, document_start, (buffer_end - buffer) - (document_start - buffer));
-			buffer_end -= document_start - buffer;
-			fetch(buffer_end, buffer_size - (buffer_end - buffer));
+			size_t bytes_to_keep = buffer_end - document_start;
+			uint8_t *old_buffer = buffer;
+			if (bytes_to_keep >= buffer_size)
+				{
+				buffer = new uint8_t[buffer_size * 2 + 1];
+				buffer_size *= 2;
+				}
+			memmove(buffer, document_start, bytes_to_keep);
+			if (buffer != old_buffer)
+				delete [] old_buffer;
 			document_start = buffer;
-			if ((document_end = std::search(document_start, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
+			buffer_end = buffer + bytes_to_keep;
+			buffer_used = 0;
+
+			fetch(buffer_end, buffer_size - bytes_to_keep);
+			if (buffer_end == buffer + bytes_to_keep)
 				{
 				/*
-					We are either at end of file of have a document that is too large to index (so pretend EOF)
+					End of file, and so the document is incomplete.
 				*/
 				object.primary_key = object.contents = slice();
 				return;
-- 
2.43.0


From 57f53f7d1eb4c272a87134b24406235d9da092c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 32/72] fix: a FASTA key without an end of line was read past
 the end of the document

---
 source/instream_document_fasta.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/instream_document_fasta.cpp b/source/instream_document_fasta.cpp
index ff8990f..5657ed6 100644
--- a/source/instream_document_fasta.cpp
+++ b/source/instream_document_fasta.cpp
@@ -121,13 +121,11 @@ namespace JASS
 		uint8_t *document_id_start = std::find(document_start, document_end, '>');
 		if (document_id_start != document_end)
 			{
-			document_id_end = std::find(document_id_start + 1, document_end, '\n') + 1;
+			document_id_end = std::find(document_id_start + 1, document_end, '\n');
 			/*
-				Trim whitespace from the start and end of the primary key.
+				Trim whitespace from the end of the primary key.
 			*/
-			while (isspace(*document_id_start) && document_id_start < document_end)			// trim early whitespace
-				document_id_start++;
-			while (isspace(*(document_id_end - 1)) && document_id_end > document_start)				// trip trailing whitespace
+			while (document_id_end > document_id_start && isspace(*(document_id_end - 1)))				// trip trailing whitespace
 				document_id_end--;
 			}
 
@@ -135,7 +133,7 @@ namespace JASS
 			Copy the id into the document object and get the document
 		*/
 		object.contents = slice(object.contents_allocator, document_start, document_end);
-		if (document_id_end == document_end)
+		if (document_id_start == document_end)
 			object.primary_key = slice(object.primary_key_allocator, "Unknown");
 		else
 			object.primary_key = slice(object.primary_key_allocator, document_id_start, document_id_end);
-- 
2.43.0


From dd1e88a38e412d02cd00ef8a674bd9ae37a51721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 33/72] fix: the FASTA reader lost the rest of the collection
 after a short read or a document larger than its buffer

---
 source/instream_document_fasta.cpp | 49 +++++++++++++++---------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/source/instream_document_fasta.cpp b/source/instream_document_fasta.cpp
index 5657ed6..1356da3 100644
--- a/source/instream_document_fasta.cpp
+++ b/source/instream_document_fasta.cpp
@@ -61,34 +61,25 @@ namespace JASS
 	*/
 	void instream_document_fasta::read(document &object)
 		{
-		uint8_t *unread_data = buffer + buffer_used;
-
 		/*
 			Find the start of the document
 		*/
 		uint8_t *document_start;
-		if ((document_start = std::find(unread_data, buffer_end, '>')) == buffer_end)
+		while ((document_start = std::find(buffer + buffer_used, buffer_end, '>')) == buffer_end)
 			{
 			/*
-				We might be at the end of a buffer and half-way through a tag so we copy the remainder of the file to the
-				start of the buffer and fill the remainder.
+				There's nothing useful in the buffer so fill it from the source.
 			*/
-			memmove(buffer, unread_data, buffer_size - buffer_used);
-			buffer_end -= buffer_used;
 			buffer_used = 0;
-			
-			fetch(buffer_end, buffer + buffer_size - buffer_end);
-			unread_data = buffer;
-		
-			if ((document_start = std::find(unread_data, buffer_end, '>')) == buffer_end)
+			fetch(buffer, buffer_size);
+			if (buffer_end == buffer)
 				{
 				/*
-					Most probably end of file.
+					End of file.
 				*/
 				object.primary_key = object.contents = slice();
 				return;
 				}
-			buffer_used = 1;
 			}
 
 		/*
@@ -96,23 +87,33 @@ namespace JASS
 		*/
 		uint8_t *document_end;
 		static const char *end_of_document_marker = "\n>";
-		if ((document_end = std::search(document_start + 1, buffer_end, end_of_document_marker, end_of_document_marker + 2)) == buffer_end)
+		while ((document_end = std::search(document_start + 1, buffer_end, end_of_document_marker, end_of_document_marker + 2)) == buffer_end)
 			{
 			/*
-				This happens when we move find the start tag in the buffer, but the end tag is not in memory.  We play the 
-				same game as above and shift the start tag to the start of the buffer.
+				This happens when we move find the start tag in the buffer, but the end tag is not in memory.  We shift the
+				start tag to the start of the buffer (of a larger buffer if the document fills it) and fill the remainder.
 			*/
-			memmove(buffer, document_start, (buffer_end - buffer) - (document_start - buffer));
-			buffer_end -= document_start - buffer;
-			fetch(buffer_end, buffer_size - (buffer_end - buffer));
+			size_t bytes_to_keep = buffer_end - document_start;
+			uint8_t *old_buffer = buffer;
+			if (bytes_to_keep >= buffer_size)
+				{
+				buffer = new uint8_t[buffer_size * 2 + 1];
+				buffer_size *= 2;
+				}
+			memmove(buffer, document_start, bytes_to_keep);
+			if (buffer != old_buffer)
+				delete [] old_buffer;
 			document_start = buffer;
-			document_end = std::search(document_start + 1, buffer_end, end_of_document_marker, end_of_document_marker + 2);
-			if (document_end == buffer_end)
-				document_end--;
+			document_end = buffer_end = buffer + bytes_to_keep;
+
+			fetch(buffer_end, buffer_size - bytes_to_keep);
+			if (buffer_end == document_end)
+				break;			// end of file, and so the end of the document.
 			}
 
+		if (document_end != buffer_end)
+			document_end++;		// because the end of line marker matters (believe it or not!).
 		buffer_used = document_end - buffer;		// skip to end of the document
-		document_end++;		// because the end of line marker matters (believe it or not!).
 
 		/*
 			Extract the document's primary key.
-- 
2.43.0


From 5ceaf7862d64bc4266a2751987c0148745b8f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 34/72] fix: a WARC header line as long as the buffer swallowed
 the line after it

---
 source/instream_document_warc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index c2606d7..f9bff52 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -40,6 +40,7 @@ namespace JASS
 						return nullptr;		// at EOF
 					}
 				while (*into != '\n' && into < end);
+				bool whole_line = *into == '\n';
 				*into = '\0';
 
 				/*
@@ -48,7 +49,7 @@ namespace JASS
 					in documents such as clueweb09-en0000-05-10880 which as a 1486 character WARC-Target-URI!  It also won't
 					affect the string comparison because we're only comparing to the start of the string.
 				*/
-				if (into == end)
+				if (!whole_line)
 					{
 					do
 						if (source->fetch(into, 1) != 1)
-- 
2.43.0


From ba2e3d0090fddeb005aacc97e8946da63a65a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 35/72] fix: a WARC primary key kept the carriage return at the
 end of its line

---
 source/instream_document_warc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index f9bff52..18318ab 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -87,8 +87,11 @@ namespace JASS
 			*/
 			while (ascii::isspace(*filename))
 				filename++;
+			const char *filename_end = filename + strlen(filename);
+			while (filename_end > filename && ascii::isspace(*(filename_end - 1)))		// a WARC file has "\r\n" at the end of each line
+				filename_end--;
 
-			object.primary_key = slice(object.primary_key_allocator, filename, filename + strlen(filename));
+			object.primary_key = slice(object.primary_key_allocator, filename, filename_end);
 
 			/*
 				Get and store the document length
-- 
2.43.0


From f8180440899f58d707492a5f5bad068fb6f61f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 36/72] fix: a WARC record cut short, or delivered in parts,
 had bytes that were never read

---
 source/instream_document_warc.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index 18318ab..7533278 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -104,9 +104,11 @@ namespace JASS
 				size_t length = atoll(file_length);
 				char *document = reinterpret_cast<char *>(object.contents_allocator.malloc(length + 1));
 
-				source->fetch(document, length);
-				document[length] = '\0';
-				object.contents = slice(document, document + length);
+				size_t got = 0;
+				for (size_t bytes; got < length && (bytes = source->fetch(document + got, length - got)) != 0; )
+					got += bytes;
+				document[got] = '\0';
+				object.contents = slice(document, document + got);		// got < length if the file is truncated
 				}
 			}
 		}
-- 
2.43.0


From 4487fa4fb0b0f2949ec4c9bb77184f01aeaa0c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 37/72] fix: a uniCOIL document larger than the buffer was read
 past the end of it

---
 source/instream_document_unicoil_json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/instream_document_unicoil_json.cpp b/source/instream_document_unicoil_json.cpp
index d6f29d3..553d1b3 100644
--- a/source/instream_document_unicoil_json.cpp
+++ b/source/instream_document_unicoil_json.cpp
@@ -59,7 +59,7 @@ namespace JASS
 					size_t bytes_in_use = buffer_end - buffer_start;
 					size_t bytes_remaining = buffer_size - bytes_in_use;
 
-					if (bytes_in_use != 0)
+					if (bytes_remaining == 0)
 						{
 						/*
 							Double the size of the buffer if its got data in it - because its too small.
@@ -71,7 +71,7 @@ namespace JASS
 						buffer_end = &buffer[0] + bytes_in_use;
 						doc_start = &buffer[0] + gap;
 
-						bytes_remaining += buffer_size;
+						bytes_remaining = buffer_size - bytes_in_use;
 						}
 
 					size_t bytes = source->fetch((void *)buffer_end, bytes_remaining);
-- 
2.43.0


From 0e25ab9941672f8d9e6d045b625960e55e917b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:10 +0000
Subject: [PATCH 38/72] fix: asking the pool for more than a block of aligned
 memory never ended

---
 source/allocator_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/allocator_pool.cpp b/source/allocator_pool.cpp
index c72e4af..facbbb2 100644
--- a/source/allocator_pool.cpp
+++ b/source/allocator_pool.cpp
@@ -132,7 +132,7 @@ namespace JASS
 			*/
 			if (chunk == nullptr || top_of_stack + bytes + padding > chunk->chunk_end)
 				{
-				if (add_chunk(bytes) != nullptr)
+				if (add_chunk(bytes + alignment - 1) != nullptr)		// there might be padding before the allocation
 					continue;
 				else
 					{
-- 
2.43.0


From ad7819335203e1490c4d2192d37b70466463feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:10 +0000
Subject: [PATCH 39/72] fix: serialising a dynamic_array wrote past the end of
 what it was given

---
 source/dynamic_array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/dynamic_array.h b/source/dynamic_array.h
index 3a0b308..7828b6f 100644
--- a/source/dynamic_array.h
+++ b/source/dynamic_array.h
@@ -368,10 +368,11 @@ namespace JASS
 					*/
 					for (node *current = head; current != nullptr; current = current->next)
 						{
-						std::copy(current->data, current->data + (current->used <= size_of_into ? current->used.load() : size_of_into), into);
-						size_of_into -= current->used;
+						size_t fits = current->used <= size_of_into ? current->used.load() : size_of_into;
+						std::copy(current->data, current->data + fits, into);
+						size_of_into -= fits;
 						would_take += current->used;
-						into += current->used;
+						into += fits;
 						}
 					}
 				return would_take;
-- 
2.43.0


From ba657bd3304fdaf0487134443dbdcfd0bd2d9c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 40/72] fix: the FASTA parser read past the end of the document
 looking for a base

---
 source/parser_fasta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index ee17fdc..25c84ad 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -26,7 +26,7 @@ namespace JASS
 		/*
 			Skip over any leading spaces
 		*/
-		while (!ascii::isDNAbase(*current))
+		while (current < end_of_document && !ascii::isDNAbase(*current))
 			current++;
 
 		/*
-- 
2.43.0


From b1e0ae3f05b86e8a8e0675461152f9b12b5b7e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 41/72] fix: the FASTA parser gave the first k-mer after a
 non-base and white space twice

---
 source/parser_fasta.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index 25c84ad..0b18f5a 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -64,9 +64,12 @@ namespace JASS
 				else
 					{
 					/*
-						Not a valid DNA base so start the token at the next chacter and the one after that (current) at the character after that.
+						Not a valid DNA base so start the token at the next DNA base and the one after that (current) at the character after that.
 					*/
-					current = (++from) + 1;
+					from++;
+					while (from < end_of_document && !ascii::isDNAbase(*from))
+						from++;
+					current = from + 1;
 					break;
 					}
 				}
-- 
2.43.0


From 56a75369b06fe180258a1cd2580d48ade6cc51b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 42/72] fix: the FASTA parser lost the last 1-mer of a document

---
 source/parser_fasta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index 0b18f5a..3514035 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -78,7 +78,7 @@ namespace JASS
 		/*
 			Do we have enough characters to for a k-mer (or are we at EOF)?
 		*/
-		if (current >= end_of_document || byte != kmer_length)
+		if (byte != kmer_length)
 			return eof_token;
 
 		/*
-- 
2.43.0


From 6c1f219e44ed323aa19cf6fcfbbca9fd62355b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 43/72] fix: k-mers had the type of the last token of the
 header, and were not indexed when that is punctuation or a tag

---
 source/parser_fasta.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index 3514035..c7d7ac6 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -85,6 +85,7 @@ namespace JASS
 			Return the k-mer as a token.
 		*/
 		current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
+		current_token.type = current_token.alpha;		// and not whatever the last token of the header line was
 		return current_token;
 		}
 
-- 
2.43.0


From 88872cb8af02dda83278e29ee65be6bd9992b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 44/72] fix: a k-mer longer than a token overflowed the token

---
 source/parser_fasta.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index c7d7ac6..cad65e9 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -40,6 +40,7 @@ namespace JASS
 			As a valid k-mer can only contain DNA bases, if we encounter a symbol that is invalid we skip that token and start at the next DNA base pair.
 		*/
 		uint8_t *buffer_pos = current_token.buffer;
+		const uint8_t *buffer_end = current_token.buffer + sizeof(current_token.buffer);
 		const uint8_t *from = current++;
 		size_t byte = 0;
 		while (byte < kmer_length && from < end_of_document)
@@ -58,7 +59,9 @@ namespace JASS
 					/*
 						Valid DNA bases get added to the token
 					*/
-					*buffer_pos++ = ascii::tolower(*from++);
+					if (buffer_pos < buffer_end)
+						*buffer_pos++ = ascii::tolower(*from);
+					from++;
 					byte++;
 					}
 				else
-- 
2.43.0


From eee2746818b0f6b1153f130586677577ea5a7513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:59 +0000
Subject: [PATCH 45/72] fix: what comes after the last term of a uniCOIL vector
 became an empty term with the last weight

---
 source/parser_unicoil_json.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index da19741..3278d2c 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -98,6 +98,8 @@ namespace JASS
 						break;
 					current++;
 					}
+				if (current >= end_of_document)
+					return eof_token;											// there are no more terms, just what comes after the last of them
 
 				current++;
 
-- 
2.43.0


From 6caabf2bf52b1444852d2a4231fc3e2a4f57c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:59 +0000
Subject: [PATCH 46/72] fix: a uniCOIL weight of more than 65535 was replaced
 by the weight of the term before it

---
 source/parser_unicoil_json.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index 3278d2c..6b7c9c2 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -147,7 +147,9 @@ namespace JASS
 				*/
 				current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
 				current_token.type = token::alpha;
-				std::from_chars((char *)count_start, (char *)count_finish, current_token.count);
+				current_token.count = 0;
+				if (std::from_chars((char *)count_start, (char *)count_finish, current_token.count).ec == std::errc::result_out_of_range)
+					current_token.count = index_postings_impact::largest_impact;
 
 				if (current_token.count > index_postings_impact::largest_impact)
 					{
-- 
2.43.0


From 337a7fe4aab3c002917fe4062d509ff179c08f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:36 +0000
Subject: [PATCH 47/72] fix: a string switch at the end of the command line,
 without its value, dereferenced a null pointer

---
 source/commandline.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/commandline.h b/source/commandline.h
index bfa24de..d49ade1 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -227,6 +227,12 @@ namespace JASS
 			*/
 			static void extract(std::ostringstream &messages, const char *parameter, command<std::string> element)
 				{
+				if (parameter == nullptr)
+					{
+					messages << " Missing string parameter\n";
+					return;
+					}
+
 				element.parameter = parameter;
 				}
 
-- 
2.43.0


From 108e8b9bf36078773f90eb906b713a3779bf837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:36 +0000
Subject: [PATCH 48/72] fix: a floating point switch without its value, or with
 something else, ended the program with an exception

---
 source/commandline.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/source/commandline.h b/source/commandline.h
index d49ade1..bc54068 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -205,7 +205,20 @@ namespace JASS
 							 std::is_same<TYPE, double>::value>::type* = nullptr>
 			static void extract(std::ostringstream &messages, const char *parameter, command<TYPE> element)
 				{
-				double answer = std::stod(parameter);
+				if (parameter == nullptr)
+					{
+					messages << " Missing numeric parameter\n";
+					return;
+					}
+
+				char *end;
+				double answer = strtod(parameter, &end);
+
+				if (end == parameter)
+					{
+					messages << parameter << " Not a number\n";
+					return;
+					}
 
 				if (answer > (std::numeric_limits<TYPE>::max)())
 					messages << parameter << " Numeric overflow on parameter\n";
-- 
2.43.0


From 065d5e4f5dcdb7d74301b536f107919fdaa0dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:36 +0000
Subject: [PATCH 49/72] fix: a floating point switch refused zero and
 everything less as too small

---
 source/commandline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/commandline.h b/source/commandline.h
index bc54068..e8bb9d5 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -222,7 +222,7 @@ namespace JASS
 
 				if (answer > (std::numeric_limits<TYPE>::max)())
 					messages << parameter << " Numeric overflow on parameter\n";
-				else if (answer < (std::numeric_limits<TYPE>::min)())
+				else if (answer < (std::numeric_limits<TYPE>::lowest)())
 					messages << parameter << " Numeric underflow on parameter\n";
 				else
 					element.parameter = static_cast<TYPE>(answer);
-- 
2.43.0


From b952074169d0e2dd24e2b260c58234c569d8cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:36 +0000
Subject: [PATCH 50/72] fix: --rho_min and --RHO_min were taken for --rho and
 --RHO, of which they are extensions, with a value of zero

---
 anytime/JASS_anytime.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime.cpp b/anytime/JASS_anytime.cpp
index 6f9afca..562feed 100755
--- a/anytime/JASS_anytime.cpp
+++ b/anytime/JASS_anytime.cpp
@@ -43,10 +43,10 @@ static auto parameters = std::make_tuple							///< The  command line parameter
 	JASS::commandline::parameter("-k",   "--top-k",        "<top-k>           Number of results to return to the user (top-k value) [default = -k10]", parameter_top_k),
 	JASS::commandline::parameter("-q",   "--queryfile",    "<filename>        Name of file containing a list of queries (1 per line, each line prefixed with query-id)", parameter_queryfilename),
 	JASS::commandline::parameter("-Q",   "--queryrsvfile", "<filename>        Name of file containing a list of the minimum rsv value for a document to be found (1 per line: <query_id> <rsv>)", parameter_rsv_scores_filename),
-	JASS::commandline::parameter("-r",   "--rho",          "<integer_percent> Percent of the collection size to use as max number of postings to process [default = -r100] (overrides -R)", rho),
 	JASS::commandline::parameter("-⌊r⌋", "--rho_min",      "<integer_percent> Percent of the collection size to use as minimum number of postings to process [default is 0] (overrides -R)", rho_min),
-	JASS::commandline::parameter("-R",   "--RHO",          "<integer_max>     Max number of postings to process [default is all]", maximum_number_of_postings_to_process),
+	JASS::commandline::parameter("-r",   "--rho",          "<integer_percent> Percent of the collection size to use as max number of postings to process [default = -r100] (overrides -R)", rho),
 	JASS::commandline::parameter("-⌊R⌋", "--RHO_min",      "<integer_min>     Minimum number of postings to process [default is 0]", minimum_number_of_postings_to_process),
+	JASS::commandline::parameter("-R",   "--RHO",          "<integer_max>     Max number of postings to process [default is all]", maximum_number_of_postings_to_process),
 	JASS::commandline::parameter("-ℝ",   "--Relative_RHO", "<integer_percent> Percent of this queries postings to use as max number of postings to process [default = -ℝ100] (overrides -R and -r)", parameter_relative_rho),
 	JASS::commandline::parameter("-t",   "--threads",      "<threadcount>     Number of threads to use (one query per thread) [default = -t1]", parameter_threads),
 	JASS::commandline::parameter("-w",   "--width",        "<2^w>             The width of the 2D accumulator array (2^w is used)", accumulator_width)
-- 
2.43.0


From c46d33e07bf4e1bb09c9e495fdf89d4428c9d262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 51/72] fix: indexing ended at a document with nothing in it
 (such as a uniCOIL document whose vector is empty)

---
 source/document.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/document.h b/source/document.h
index cf896da..8963c2c 100644
--- a/source/document.h
+++ b/source/document.h
@@ -82,11 +82,12 @@ namespace JASS
 			*/
 			/*!
 				@brief Check to see whether this is an empty document.
-				@return true if the document has no contents, else false;
+				@details A document that is in a collection but has nothing in it still has a primary key, so it is not taken for the end of the collection.
+				@return true if the document has neither contents nor a primary key, else false;
 			*/
 			bool isempty(void)
 				{
-				return contents.size() == 0;
+				return contents.size() == 0 && primary_key.size() == 0;
 				}
 			
 			/*
-- 
2.43.0


From 92cfcbcb46280be3d9881824913806fc283f0207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 52/72] fix: the indexer divided by zero when told to report
 every 0 documents

---
 tools/JASS_index.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/JASS_index.cpp b/tools/JASS_index.cpp
index 7594427..9ad2c76 100644
--- a/tools/JASS_index.cpp
+++ b/tools/JASS_index.cpp
@@ -283,7 +283,7 @@ int main(int argc, const char *argv[])
 			break;
 
 		total_documents++;
-		if (total_documents % parameter_report_every_n == 0)
+		if (parameter_report_every_n != 0 && total_documents % parameter_report_every_n == 0)
 			{
 			auto took = JASS::timer::stop(timer).nanoseconds();
 			std::cout << "Documents:" << total_documents << " in:" << took << " ns" << "\n";
-- 
2.43.0


From 302414e8647404dd98d3c7aa67d69665cf647e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:52 +0000
Subject: [PATCH 53/72] fix: zero divided by zero was converted to an integer
 when every posting has the same score

---
 source/quantize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/quantize.h b/source/quantize.h
index 4ec360a..e3ec071 100644
--- a/source/quantize.h
+++ b/source/quantize.h
@@ -187,7 +187,7 @@ namespace JASS
 						This uses Uniform Quantiization as defined by Anh et al. in:
 						Vo Ngoc Anh, Owen de Kretser, and Alistair Moffat. 2001. Vector-space ranking with effective early termination. In Proceedings of the 24th annual international ACM SIGIR conference on Research and development in information retrieval (SIGIR '01). ACM, New York, NY, USA, 35-42. DOI: https://doi.org/10.1145/383952.383957
 					*/
-					index_postings_impact::impact_type impact = static_cast<index_postings_impact::impact_type>(((score - smallest_rsv) / (largest_rsv - smallest_rsv)) * impact_range) + index_postings_impact::smallest_impact;
+					index_postings_impact::impact_type impact = static_cast<index_postings_impact::impact_type>(largest_rsv > smallest_rsv ? ((score - smallest_rsv) / (largest_rsv - smallest_rsv)) * impact_range : 0) + index_postings_impact::smallest_impact;
 					*current_tf = impact;
 					}
 
-- 
2.43.0


From 0892ac70ade13212889f3b126d1f7874b245d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:58 +0000
Subject: [PATCH 54/72] fix: impacts of more than 255 were printed modulo 256

---
 tools/JASSv1_to_human.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/JASSv1_to_human.cpp b/tools/JASSv1_to_human.cpp
index c6167c7..954d3c4 100755
--- a/tools/JASSv1_to_human.cpp
+++ b/tools/JASSv1_to_human.cpp
@@ -104,9 +104,9 @@ class printer
 		/*!
 			@brief print the posting
 			@param document [in] The document identifier (docid) used internally.
-			@param impact [in] The impact score of this term in this document.
+			@param accumulator_impact [in] The impact score as an accumulator holds it, which might not have room for all of it (so the score that was set is printed).
 		*/
-		void add_rsv(uint64_t document, uint64_t impact)
+		void add_rsv(uint64_t document, uint64_t accumulator_impact)
 			{
 			std::cout << '<' << document << ',' << impact << '>';
 			}
@@ -144,7 +144,7 @@ void walk_index_v1(JASS::deserialised_jass_v1 &index, JASS::compress_integer &de
 				uint64_t *postings = (uint64_t *)term.offset + current_segment;
 				const JASS::deserialised_jass_v1::segment_header_on_disk &header = *reinterpret_cast<const JASS::deserialised_jass_v1::segment_header_on_disk *>(index.postings() + *postings);
 
-				decompressor.set_impact(header.impact);
+				out_stream.set_score(header.impact);
 				decompressor.decode_with_writer(out_stream, header.segment_frequency, index.postings() + header.offset, header.end - header.offset);
 				}
 			}
@@ -197,7 +197,7 @@ void walk_index_v2(JASS::deserialised_jass_v1 &index, JASS::compress_integer &de
 //printf("%02X ", *(current_header_pointer + header.offset + byte));
 //std::cout << "\n";
 
-				decompressor.set_impact(header.impact);
+				out_stream.set_score(header.impact);
 				decompressor.decode_with_writer(out_stream, header.segment_frequency, segment_header_pointer + header.offset, header.end);
 				}
 			}
-- 
2.43.0


From a5acf02b70d8e64f70f060e6b3b0ceed5aaf4095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:58 +0000
Subject: [PATCH 55/72] fix: quotes and backslashes in primary keys ended up
 unescaped in the source code of a compiled index

---
 source/serialise_ci.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/serialise_ci.cpp b/source/serialise_ci.cpp
index 05ad278..cc1c9e3 100644
--- a/source/serialise_ci.cpp
+++ b/source/serialise_ci.cpp
@@ -122,7 +122,12 @@ namespace JASS
 	void serialise_ci::operator()(size_t document_id, const slice &primary_key)
 		{
 		primary_key_file.write("\"");
-		primary_key_file.write(primary_key.address(), primary_key.size());
+		for (size_t which = 0; which < primary_key.size(); which++)
+			{
+			if (primary_key[which] == '"' || primary_key[which] == '\\')
+				primary_key_file.write("\\", 1);				// these have a meaning in a C++ string
+			primary_key_file.write(&primary_key[which], 1);
+			}
 		primary_key_file.write("\",\n");
 		}
 
-- 
2.43.0


From e2a5bd06f8e31048998e99bcee57d9e9754e09ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:01 +0000
Subject: [PATCH 56/72] fix: a CIFF with something unexpected in it was not
 refused: reading went on from wherever it was

---
 tools/ciff_lin.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/ciff_lin.h b/tools/ciff_lin.h
index d2b2f17..3b199ac 100644
--- a/tools/ciff_lin.h
+++ b/tools/ciff_lin.h
@@ -483,7 +483,7 @@ namespace JASS
 					*/
 					bool operator!=(postings_list_iterator &with)
 						{
-						bool answer = which <= with.which;
+						bool answer = source.status == OK && which <= with.which;
 						source.stream = stream;
 						return answer;
 						}
@@ -615,7 +615,7 @@ namespace JASS
 					*/
 					bool operator!=(docrecords_iterator &with)
 						{
-						return which <= with.which;
+						return source.status == OK && which <= with.which;
 						}
 				};
 
@@ -749,7 +749,7 @@ namespace JASS
 				stream(source_file),
 				status(OK)
 				{
-				read_header(ciff_header);
+				status = read_header(ciff_header);
 				ciff_header.text_render();
 				}
 
-- 
2.43.0


From 73749890f92e63b9c5decf3f62e5199e55a26714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:01 +0000
Subject: [PATCH 57/72] fix: a document record was read after the last of a
 CIFF

---
 tools/ciff_lin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/ciff_lin.h b/tools/ciff_lin.h
index 3b199ac..7f0c541 100644
--- a/tools/ciff_lin.h
+++ b/tools/ciff_lin.h
@@ -579,7 +579,7 @@ namespace JASS
 						{
 						current.clear();
 
-						if (doc_record::get_next(current, stream) == FAIL)
+						if (which < static_cast<size_t>(source.ciff_header.num_docs) && doc_record::get_next(current, stream) == FAIL)
 							{
 							/*
 								On error move to the end of the stream and mark the stream as bad
-- 
2.43.0


From 57ae30991a7fc99ed78307fc3e76bb1496acbfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:01 +0000
Subject: [PATCH 58/72] fix: ciff_to_JASS dereferenced the first of no
 postings, and took a CIFF whose documents are broken or out of order for a
 good one

---
 tools/ciff_to_JASS.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/ciff_to_JASS.cpp b/tools/ciff_to_JASS.cpp
index e29ccc5..4c1ae32 100644
--- a/tools/ciff_to_JASS.cpp
+++ b/tools/ciff_to_JASS.cpp
@@ -186,6 +186,9 @@ int main(int argc, const char *argv[])
 			std::cout << " " << posting.document_frequency << " " << posting.collection_frequency << ":\n";
 			}
 
+		if (posting.postings.size() == 0)
+			continue;
+
 		/*
 			CIFF counts from documentID = 0, but JASS indexing counts from documentID = 1,
 			so we increment the first docid (as the others are d-gaps).
@@ -219,10 +222,12 @@ int main(int argc, const char *argv[])
 		if (last_docid != static_cast<JASS::compress_integer::integer>(docid.docid))
 			{
 			std::cout << "Document IDs must be ordered\n";
-			exit(0);
+			exit(1);
 			}
 		last_docid = docid.docid + 1;
 		}
+	if (source.status == JASS::ciff_lin::FAIL)
+		exit(printf("File is not in the correct format\n"));
 
 	/*
 		set the length vector and the primary key vector
-- 
2.43.0


From a991968689ad187a078d827429375be4ec7360f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:43 +0000
Subject: [PATCH 59/72] fix: the number of a topic was read beyond the end of
 its token, and from nothing if there is none

---
 source/channel_trec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 2f889dd..477772e 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -87,7 +87,7 @@ namespace JASS
 								digits = parser.get_next_token();
 							while (digits.type != JASS::parser::token::numeric && digits.type != JASS::parser::token::eof);
 							old_number = number;
-							number = atol(reinterpret_cast<char *>(digits.get().address()));
+							number = digits.type == JASS::parser::token::numeric ? atol(std::string(reinterpret_cast<char *>(digits.get().address()), digits.get().size()).c_str()) : 0;
 
 							if (old_number >= 0)
 								return construct(into, old_number, answer.str());
-- 
2.43.0


From eee34d595a277e87bd2e82a926fd22a6c11061e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:43 +0000
Subject: [PATCH 60/72] fix: a topic file without topics gave a query that is
 not there

---
 source/channel_trec.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 477772e..5b09746 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -126,7 +126,10 @@ namespace JASS
 			}
 
 		at_eof = true;
-		return construct(into, number, answer.str());
+		if (number < 0)
+			into.clear();			// there are no topics
+		else
+			construct(into, number, answer.str());
 		}
 
 	/*
-- 
2.43.0


From cb38a5807671bbe489474e78a3481aacb348c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:54 +0000
Subject: [PATCH 61/72] fix: a topic that starts on the line that another ends
 on lost its text

---
 source/channel_trec.cpp | 20 +++++++++++++++-----
 source/channel_trec.h   |  4 ++++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 5b09746..3a5f6fe 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -35,7 +35,6 @@ namespace JASS
 		{
 		int64_t old_number;
 		std::ostringstream raw_query;
-		parser parser;
 		std::ostringstream answer;
 
 		if (at_eof)
@@ -52,14 +51,16 @@ namespace JASS
 				in_channel->gets(buffer);
 				if (buffer.size() == 0)
 					break;		// at end of input
+				tokenizer.set_document(buffer);
+				topic_search_from = 0;
 				}
-			parser.set_document(buffer);
+			read = true;
 
 			bool finished = false;
 			const char *token_start;
 			do
 				{
-				const auto &token = parser.get_next_token();
+				const auto &token = tokenizer.get_next_token();
 
 				switch (token.type)
 					{
@@ -84,13 +85,16 @@ namespace JASS
 							*/
 							parser::token digits;
 							do
-								digits = parser.get_next_token();
+								digits = tokenizer.get_next_token();
 							while (digits.type != JASS::parser::token::numeric && digits.type != JASS::parser::token::eof);
 							old_number = number;
 							number = digits.type == JASS::parser::token::numeric ? atol(std::string(reinterpret_cast<char *>(digits.get().address()), digits.get().size()).c_str()) : 0;
 
 							if (old_number >= 0)
+								{
+								read = false;			// the rest of the line belongs to the next topic
 								return construct(into, old_number, answer.str());
+								}
 							}
 						else if (token.get().size() == 5 && strncmp(token_start, "topic", 5) == 0)
 							{
@@ -99,7 +103,10 @@ namespace JASS
 							*/
 							old_number = number;
 							number = 0;
-							for (const char *character = buffer.c_str(); *character != '\0'; character++)
+							do
+								topic_search_from = buffer.find("<topic", topic_search_from) + 6;
+							while (topic_search_from < buffer.size() && isalnum(static_cast<unsigned char>(buffer[topic_search_from])));
+							for (const char *character = buffer.c_str() + topic_search_from; *character != '\0'; character++)
 								if (isdigit(*character))
 									{
 									number = atol(character);
@@ -107,7 +114,10 @@ namespace JASS
 									}
 
 							if (old_number >= 0)
+								{
+								read = false;			// the rest of the line belongs to the next topic
 								return construct(into, old_number, answer.str());
+								}
 							}
 						else if (token.get().size() == 5 && (strncmp(token_start, "query", 5) == 0) && (tag.find('q') != std::string::npos))
 								match = true;			// ClueWeb
diff --git a/source/channel_trec.h b/source/channel_trec.h
index 1bdde74..789d003 100644
--- a/source/channel_trec.h
+++ b/source/channel_trec.h
@@ -15,6 +15,7 @@
 
 #include <sstream>
 
+#include "parser.h"
 #include "channel.h"
 
 namespace JASS
@@ -32,6 +33,8 @@ namespace JASS
 			std::unique_ptr<channel> in_channel;	///< The channel this channel reads from
 			std::string buffer;							///< Storage of date read from the in_channel
 			bool read;										///< Do we need to read from the input channel
+			parser tokenizer;								///< Parser of what was read from the input channel
+			size_t topic_search_from;					///< Where in buffer to look for the next topic element
 			bool at_eof;									///< Are we at end of input?
 			int64_t number;								///< The topic number of the topic being constructed
 			std::string tag;								///< The tag set to use
@@ -89,6 +92,7 @@ namespace JASS
 				tag(tagset)
 				{
 				read = true;
+				topic_search_from = 0;
 				number = -1;
 				at_eof = false;
 				}
-- 
2.43.0


From 73d45582a6083a3e3838474986466aef8e69f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:30 +0000
Subject: [PATCH 62/72] fix: the queries after a blank line were not answered

---
 anytime/JASS_anytime.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/anytime/JASS_anytime.cpp b/anytime/JASS_anytime.cpp
index 562feed..d21bf25 100755
--- a/anytime/JASS_anytime.cpp
+++ b/anytime/JASS_anytime.cpp
@@ -65,7 +65,8 @@ JASS::channel *make_input_channel(std::string filename)
 		If the start of the file is a digit then we think we have a JASS topic file.
 		If the start is not a digit then we're expecting to see a TREC topic file.
 	*/
-	if (::isdigit(file[0]))
+	std::size_t start = file.find_first_not_of(" \t\f\v\n\r");
+	if (start != std::string::npos && ::isdigit(static_cast<unsigned char>(file[start])))
 		return new JASS::channel_file(filename);				// JASS topic file
 	else
 		{
@@ -91,25 +92,18 @@ void load_queries(std::vector<JASS_anytime_query> &query_list, const std::string
 	*/
 	input->gets(query);
 
-	std::size_t found = query.find_last_not_of(" \t\f\v\n\r");
-	if (found != std::string::npos)
-	  query.erase(found + 1);
-	else
-	  query.clear();            // str is all whitespace
-
 	while (query.size() != 0)
 		{
-		query_list.push_back(query);
+		std::size_t found = query.find_last_not_of(" \t\f\v\n\r");
+		if (found != std::string::npos)		// skip blank lines (str is all whitespace)
+			{
+			query.erase(found + 1);
+			query_list.push_back(query);
+			}
 
 		input->gets(query);
-
-		std::size_t found = query.find_last_not_of(" \t\f\v\n\r");
-		if (found != std::string::npos)
-		  query.erase(found + 1);
-		else
-		  query.clear();            // str is all whitespace
 		}
-		
+
 	delete input;
 	}
 
-- 
2.43.0


From eb7da8f5cc2497de599ea300e4a14fe29947b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:30 +0000
Subject: [PATCH 63/72] fix: the id of a query without any words was taken for
 its only word

---
 anytime/JASS_anytime.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anytime/JASS_anytime.cpp b/anytime/JASS_anytime.cpp
index d21bf25..b244652 100755
--- a/anytime/JASS_anytime.cpp
+++ b/anytime/JASS_anytime.cpp
@@ -98,6 +98,8 @@ void load_queries(std::vector<JASS_anytime_query> &query_list, const std::string
 		if (found != std::string::npos)		// skip blank lines (str is all whitespace)
 			{
 			query.erase(found + 1);
+			if (query.find_first_of(" \t:") == std::string::npos)
+				query += ' ';						// a query-id without any words is still a query-id
 			query_list.push_back(query);
 			}
 
-- 
2.43.0


From 3f7479f8384be08db35ebe9eb9c05e815062ae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:46 +0000
Subject: [PATCH 64/72] fix: an index that could not be written in full was
 taken for one that was

---
 source/file.h                      | 14 ++++++++++++--
 source/serialise_ci.cpp            |  8 ++++++++
 source/serialise_forward_index.cpp |  1 +
 source/serialise_integers.h        |  2 +-
 source/serialise_jass_v1.cpp       |  8 ++++++++
 tools/JASS_index.cpp               |  6 ++++++
 tools/ciff_to_JASS.cpp             |  6 ++++++
 7 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/source/file.h b/source/file.h
index c477629..f06c2ba 100755
--- a/source/file.h
+++ b/source/file.h
@@ -199,7 +199,14 @@ namespace JASS
 			*/
 			~file()
 				{
-				flush();
+				try
+					{
+					flush();
+					}
+				catch (...)
+					{
+					/* Nothing can be done about it here, call flush() first to be told. */
+					}
 				if (fp != nullptr && fp != stdin && fp != stdout && fp != stderr)
 					fclose(fp);
 				}
@@ -230,6 +237,7 @@ namespace JASS
 			*/
 			/*!
 				@brief Flush the internal buffers to disk (called automatically on close).
+				@details Throws an exception if what is in the buffers cannot be written.
 			*/
 			void flush(void)
 				{
@@ -240,8 +248,10 @@ namespace JASS
 						done with blocking I/O then this causes a bottleneck as we wait for the OS
 						to write to disk.
 					*/
-					::fwrite(buffer.get(), 1, buffer_used, fp);
+					size_t bytes = buffer_used;
 					buffer_used = 0;
+					if (fp == nullptr || ::fwrite(buffer.get(), 1, bytes, fp) != bytes || ::fflush(fp) != 0)
+						throw std::runtime_error("file::flush() failure");
 					}
 				}
 
diff --git a/source/serialise_ci.cpp b/source/serialise_ci.cpp
index cc1c9e3..71c1dfa 100644
--- a/source/serialise_ci.cpp
+++ b/source/serialise_ci.cpp
@@ -69,6 +69,14 @@ namespace JASS
 		vocab_file.write(length.str());
 
 		primary_key_file.write("};\n");
+
+		/*
+			Make sure it all got to the disk
+		*/
+		postings_file.flush();
+		postings_header_file.flush();
+		vocab_file.flush();
+		primary_key_file.flush();
 		}
 
 	/*
diff --git a/source/serialise_forward_index.cpp b/source/serialise_forward_index.cpp
index 18f6c57..a6ce6df 100644
--- a/source/serialise_forward_index.cpp
+++ b/source/serialise_forward_index.cpp
@@ -56,6 +56,7 @@ namespace JASS
 			outfile.write(one.c_str(), one.size());
 			outfile.write("</DOC>\n", 7);
 			}
+		outfile.flush();
 		}
 
 	/*
diff --git a/source/serialise_integers.h b/source/serialise_integers.h
index e4e20bc..48ec07b 100644
--- a/source/serialise_integers.h
+++ b/source/serialise_integers.h
@@ -65,7 +65,7 @@ namespace JASS
 			*/
 			void finish(void)
 				{
-				/* Nothing */
+				postings_file.flush();
 				}
 				
 			/*
diff --git a/source/serialise_jass_v1.cpp b/source/serialise_jass_v1.cpp
index c962f34..0a667bf 100644
--- a/source/serialise_jass_v1.cpp
+++ b/source/serialise_jass_v1.cpp
@@ -30,6 +30,14 @@ namespace JASS
 			Serialise the primary key offsets and the number of documents in the collection.
 		*/
 		serialise_primary_keys();
+
+		/*
+			Make sure it all got to the disk
+		*/
+		vocabulary_strings.flush();
+		vocabulary.flush();
+		postings.flush();
+		primary_keys.flush();
 		}
 
 	/*
diff --git a/tools/JASS_index.cpp b/tools/JASS_index.cpp
index 9ad2c76..86afb09 100644
--- a/tools/JASS_index.cpp
+++ b/tools/JASS_index.cpp
@@ -143,6 +143,7 @@ document_format get_document_format()
 	------
 */
 int main(int argc, const char *argv[])
+try
 	{
 	auto timer = JASS::timer::start();			// elapsed time since start (excluding static initialisers)
 
@@ -402,3 +403,8 @@ int main(int argc, const char *argv[])
 	*/
 	return 0;
 	}
+catch (std::exception &error)
+	{
+	std::cout << "Unexpected Exception:" << error.what() << "\n";
+	return 1;
+	}
diff --git a/tools/ciff_to_JASS.cpp b/tools/ciff_to_JASS.cpp
index 4c1ae32..f36b081 100644
--- a/tools/ciff_to_JASS.cpp
+++ b/tools/ciff_to_JASS.cpp
@@ -121,6 +121,7 @@ uint8_t usage(const char *exename)
 	------
 */
 int main(int argc, const char *argv[])
+try
 	{
 	std::string file;
 	bool passthrough = false;		// pass the TF scores through unchanges
@@ -259,3 +260,8 @@ int main(int argc, const char *argv[])
 	std::cout << "DONE\n";
 	return 0;
 	}
+catch (std::exception &error)
+	{
+	std::cout << "Unexpected Exception:" << error.what() << "\n";
+	return 1;
+	}
-- 
2.43.0


From 0c8e484fd59182a74dc0a33164609ec38480836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:59 +0000
Subject: [PATCH 65/72] fix: a file that could not be mapped was taken for one
 that was

---
 source/file.cpp | 991 ++++++++++++++++++++++++------------------------
 1 file changed, 497 insertions(+), 494 deletions(-)

diff --git a/source/file.cpp b/source/file.cpp
index 03477a0..17fa6e1 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -1,494 +1,497 @@
-/*
-	FILE.CPP
-	--------
-	Copyright (c) 2016 Andrew Trotman
-	Released under the 2-clause BSD license (See:https://en.wikipedia.org/wiki/BSD_licenses)
-
-	Originally from the ATIRE codebase (where it was also written by Andrew Trotman)
-*/
-#include <stdio.h>
-#include <stdlib.h>
-#include <string.h>
-#include <sys/stat.h>
-#include <sys/types.h>
-
-#ifdef _MSC_VER
-	#include <io.h>
-#else
-	#include <fcntl.h>
-	#include <unistd.h>
-	#include <sys/mman.h>
-	#include <sys/stat.h>
-	#include <sys/types.h>
-#endif
-#include <limits>
-
-#include "file.h"
-#include "asserts.h"
-
-namespace JASS
-	{
-
-	/*
-		FILE::FILE_READ_ONLY::OPEN()
-		----------------------------
-	*/
-	size_t file::file_read_only::open(const std::string &filename)
-		{
-		#ifdef _MSC_VER
-			hFile = CreateFile(filename.c_str(), GENERIC_READ, 0, NULL, OPEN_EXISTING, FILE_ATTRIBUTE_READONLY, NULL);
-			if (hFile == INVALID_HANDLE_VALUE)
-				return 0;
-
-			hMapFile = CreateFileMapping(hFile, NULL, PAGE_READONLY, 0, 0, NULL);
-			if (hMapFile == NULL)
-				{
-				CloseHandle(hFile);
-				return 0;
-				}
-
-			void *lpMapAddress = MapViewOfFile(hMapFile, FILE_MAP_READ, 0, 0, 0);
-			if (lpMapAddress == NULL)
-				{
-				CloseHandle(hFile);
-				CloseHandle(hMapFile);
-				return 0;
-				}
-
-			file_contents = (uint8_t *)lpMapAddress;
-
-			DWORD high;
-			DWORD low = GetFileSize(hFile, &high);
-
-			size = ((uint64_t)high << (uint64_t)32) + (uint64_t)low;
-
-			return size;
-		#else
-			/*
-				Open the file
-			*/
-			int reader;
-
-			if ((reader = ::open(filename.c_str(), O_RDONLY)) < 0)
-				return 0;
-
-			/*
-				Find out how large it is
-			*/
-			struct stat statistics;
-			if (fstat(reader, &statistics) != 0)
-				{
-				close(reader);
-				return 0;
-				}
-
-			/*
-				Allocate space for it and load it
-			*/
-			#ifdef __APPLE__
-				file_contents = (uint8_t *)mmap(nullptr, statistics.st_size, PROT_READ, MAP_PRIVATE, reader, 0);
-			#else
-				file_contents = (uint8_t *)mmap(nullptr, statistics.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, reader, 0);
-			#endif
-
-			/*
-				Close the file
-			*/
-			close(reader);
-
-			if (file_contents == nullptr)
-				return 0;
-
-			/*
-				Remember the file size
-			*/
-			size = statistics.st_size;
-
-			return size;
-		#endif
-		}
-
-	/*
-		FILE::FILE_READ_ONLY::~FILE_READ_ONLY()
-		---------------------------------------
-	*/
-	file::file_read_only::~file_read_only()
-		{
-		#ifdef _MSC_VER
-			UnmapViewOfFile((void *)file_contents);
-			CloseHandle(hMapFile); // close the file mapping object
-			CloseHandle(hFile);   // close the file itself
-		#else
-			munmap((void *)file_contents, size);
-		#endif
-		}
-
-
-	/*
-		FILE::READ_ENTIRE_FILE()
-		------------------------
-		This uses a combination of "C" FILE I/O and C++ strings in order to copy the contents of a file into an internal buffer.
-		There are many different ways to do this, but this is the fastest according to this link: http://insanecoding.blogspot.co.nz/2011/11/how-to-read-in-file-in-c.html
-		Note that there does not appear to be a way in C++ to avoid the initialisation of the string buffer.
-		
-		Returns the length of the file in bytes - which is also the size of the string buffer once read.
-	*/
-		size_t file::read_entire_file(const std::string &filename, std::string &into)
-		{
-		FILE *fp;		
-		// "C" pointer to the file
-#ifdef _MSC_VER
-		struct __stat64 details;				// file system's details of the file
-#else
-		struct stat details;				// file system's details of the file
-#endif
-		size_t file_length = 0;			// length of the file in bytes
-
-		/*
-			Fopen() the file then fstat() it.  The alternative is to stat() then fopen() - but that is wrong because the file might change between the two calls.
-		*/
-		if ((fp = fopen(filename.c_str(), "rb")) != nullptr)
-			{
-#ifdef _MSC_VER
-			if (_fstat64(fileno(fp), &details) == 0)
-#else
-			if (fstat(fileno(fp), &details) == 0)
-#endif
-				if ((file_length = details.st_size) != 0)
-					{
-					into.resize(file_length);
-					if (fread(&into[0], details.st_size, 1, fp) != 1)
-						into.resize(0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
-					}
-			fclose(fp);
-			}
-
-		return file_length;
-		}
-
-	/*
-		FILE::WRITE_ENTIRE_FILE()
-		-------------------------
-		Uses "C" file I/O to write the contents of buffer to the given names file.
-		
-		Returns true on success, else false.
-	*/
-	bool file::write_entire_file(const std::string &filename, const std::string &buffer)
-		{
-		FILE *fp;						// "C" file to write to
-
-		if ((fp = fopen(filename.c_str(), "wb")) == nullptr)
-			return false;
-
-		size_t success = fwrite(&buffer[0], buffer.size(), 1, fp);
-
-		fclose(fp);
-
-		return success == 1 ? true : false;
-		}
-
-	/*
-		FILE::BUFFER_TO_LIST()
-		----------------------
-		Turn a single std::string into a vector of uint8_t * (i.e. "C" Strings). Note that these pointers are in-place.  That is,
-		they point into buffer so any change to the uint8_t or to buffer effect each other.
-		
-		Note: This method removes blank lines from the input file.
-	*/
-	void file::buffer_to_list(std::vector<uint8_t *> &line_list, std::string &buffer)
-		{
-		uint8_t *pos;
-		size_t line_count = 0;
-
-		/*
-			Walk the buffer counting how many lines we think are in there.
-		*/
-		pos = (uint8_t *)&buffer[0];
-		while (*pos != '\0')
-			{
-			if (*pos == '\n' || *pos == '\r')
-				{
-				/*
-					a seperate line is a consequative set of '\n' or '\r' lines.  That is, it removes blank lines from the input file.
-				*/
-				while (*pos == '\n' || *pos == '\r')
-					pos++;
-				line_count++;
-				}
-			else
-				pos++;
-			}
-
-		/*
-			resize the vector to the right size, but first clear it.
-		*/
-		line_list.clear();
-		line_list.reserve(line_count);
-
-		/*
-			Now rewalk the buffer turning it into a vector of lines
-		*/
-		pos = (uint8_t *)&buffer[0];
-		if (*pos != '\n' && *pos != '\r' && *pos != '\0')
-			line_list.push_back(pos);
-		while (*pos != '\0')
-			{
-			if (*pos == '\n' || *pos == '\r')
-				{
-				*pos++ = '\0';
-				/*
-					a seperate line is a consequative set of '\n' or '\r' lines.  That is, it removes blank lines from the input file.
-				*/
-				while (*pos == '\n' || *pos == '\r')
-					pos++;
-				if (*pos != '\0')
-					line_list.push_back(pos);
-				}
-			else
-				pos++;
-			}
-		}
-
-	/*
-		FILE::IS_DIRECTORY()
-		--------------------
-		Determines whether the given file system object is a directoy or not.
-	
-		Returns true if filename is a directory, else returns false.
-	*/
-	bool file::is_directory(const std::string &filename)
-		{
-		#ifdef WIN32
-			struct __stat64 st;				// file system details
-
-			if (_stat64(filename.c_str(), &st) == 0)
-				return (st.st_mode & _S_IFDIR) == 0 ? false : true;		// check the _S_IFDIR flag as there is no S_ISDIR() on Windows
-			return false;
-		#else
-			struct stat st;				// file system details
-
-			if (stat(filename.c_str(), &st) == 0)
-					return S_ISDIR(st.st_mode);		// simply check the S_ISDIR() flag
-			return false;
-		#endif
-		}
-
-	/*
-		FILE::SIZE()
-		------------
-	*/
-	size_t file::size(void) const
-		{
-		/*
-			If we're standard in (stdin) then the file is of infinite length
-		*/
-		if (fp == stdin)
-			return (std::numeric_limits<size_t>::max)();
-
-		/*
-			If we don't exist then we must be 0 in size
-		*/
-		if (fp == nullptr)
-			return 0;
-		/*
-			Since we already have a handle to the file, we just remember where we are,
-			seek to the end and check where that is, and seek back.  This will probably
-			be very fast as it doesn't (normally) need to do and I/O to compute the answer
-		*/
-		#ifdef WIN32
-			int64_t current_position = _ftelli64(fp);
-			if (current_position < 0)
-				return 0;							// this only happens on _ftelli64() failing
-			if (_fseeki64(fp, 0, SEEK_END) < 0)
-				return 0;
-			int64_t file_size = _ftelli64(fp);
-			if (_fseeki64(fp, current_position, SEEK_SET) < 0)
-				return 0;
-		#else
-			off_t current_position = ftello(fp);
-			if (current_position < 0)
-				return 0;							// LCOV_EXCL_LINE // this only happens on ftello() failing
-			if (fseeko(fp, 0, SEEK_END) < 0)
-				return 0;							// LCOV_EXCL_LINE	// when seek fails
-			off_t file_size = ftello(fp);
-			if (fseeko(fp, current_position, SEEK_SET) < 0)
-				return 0;							// LCOV_EXCL_LINE	// seek has failed.
-		#endif
-		
-		/*
-			This will fail in the case where off_t is larger than a size_t.  This is unlikely.
-			On the machines this is being developed on both size_t and off_t are 8-byte integers.
-		*/
-		return file_size < 0 ? 0 : file_size;
-		}
-	
-	/*
-		FILE::MKSTEMP()
-		---------------
-	*/
-	std::string file::mkstemp(std::string prefix)
-		{
-		prefix = prefix + "XXXXXX";
-		#ifdef WIN32
-		auto filename = const_cast<char *>(prefix.c_str());
-			::_mktemp(filename);
-		#else
-			::umask(::umask(0));				// This sets the umask to its current value, and prevents Coverity from producing a warning
-			int file_descriptor = ::mkstemp(const_cast<char *>(prefix.c_str()));
-			if (file_descriptor >= 0)
-				close(file_descriptor);
-		#endif
-		
-		return std::string(prefix.c_str());
-		}
-
-
-	/*
-		FILE::UNITTEST()
-		----------------
-	*/
-	void file::unittest(void)
-		{
-		std::vector<uint8_t *> lines;
-		std::string example_file;
-		std::string reread;
-
-		/*
-			CHECK IS_DIRECTORY()
-		*/
-		/*
-			Dot must be a directory (on Linux and Windows and OS X)
-		*/
-		JASS_assert(is_directory("."));
-		JASS_assert(!is_directory(".JASS."));		// should fail on a file that doesn't exist (but this might, no easy way to check).
-		
-		/*
-			something we know is not a directory.  In this case we'll use this very file.  Yes, this assumes
-			the unit tests are not run when the source code is not available - but I think that's reasonable.
-		*/
-		JASS_assert(!is_directory(__FILE__));
-
-		/*
-			CHECK WRITE_ENTIRE_FILE() then READ_ENTIRE_FILE()
-		*/
-		example_file = "text for example file";			// sample to be written and read back
-		
-		/*
-			create a temporary filename.  There doesn't appear to be a clean way of doing this.
-		*/
-		auto filename = file::mkstemp("jass");
-
-		/*
-			write, read back, and check we didn't lose anything along the way.
-		*/
-		std::string bad_filename = "";
-		write_entire_file(bad_filename, example_file);
-		write_entire_file(filename, example_file);
-		read_entire_file(filename, reread);
-		JASS_assert(example_file == reread);
-		
-		/*
-			Check that read works
-		*/
-		file *disk_object = new file(filename, "rb");
-		std::vector<uint8_t> disk_object_contents;
-		disk_object_contents.resize(example_file.size() + 1024);
-		disk_object->read(disk_object_contents);
-		std::string disk_object_as_string(disk_object_contents.begin(), disk_object_contents.end());
-		JASS_assert(example_file == disk_object_as_string);
-		
-		disk_object->read(disk_object_contents);			// read past end of file
-		JASS_assert(disk_object_contents.size() == 0);
-
-		/*
-			Check seek and tell()
-		*/
-		disk_object->seek(5);
-		uint8_t byte;
-		auto check = disk_object->read(&byte, 1);
-		JASS_assert(check == 1);
-		JASS_assert(byte == example_file[5]);
-		JASS_assert(disk_object->tell() == 6);
-
-		/*
-			Clean up
-		*/
-		delete disk_object;
-		(void)remove(filename.c_str());								// delete the file once we're done with it (cast to void to remove Coverity warning)
-	
-		/*
-			CHECK BUFFER_TO_LIST()
-		*/
-		/*
-			Empty file is of length 0
-		*/
-		example_file = "";
-		buffer_to_list(lines, example_file);
-		JASS_assert(lines.size() == 0);
-
-		/*
-			File with only blank lines is of length 0
-		*/
-		example_file = "\r\n";
-		buffer_to_list(lines, example_file);
-		JASS_assert(lines.size() == 0);
-
-		/*
-			File without any new lines is of length 1
-		*/
-		example_file = "one";
-		buffer_to_list(lines, example_file);
-		JASS_assert(lines.size() == 1);
-		JASS_assert(std::string((char *)lines[0]) == example_file);
-		
-		/*
-			File with a single new line in the middle (none on the end) is of length 2
-		*/
-		example_file = "one\ntwo";
-		buffer_to_list(lines, example_file);
-		JASS_assert(lines.size() == 2);
-		JASS_assert(std::string((char *)lines[0]) == "one");
-		JASS_assert(std::string((char *)lines[1]) == "two");
-
-		/*
-			File with tons of blank lines, this one is of length 2
-		*/
-		example_file = "\n\n\none\r\n\n\rtwo\n\r\n\r\r\r\n\n\n";
-		buffer_to_list(lines, example_file);
-		JASS_assert(lines.size() == 2);
-		JASS_assert(std::string((char *)lines[0]) == "one");
-		JASS_assert(std::string((char *)lines[1]) == "two");
-
-		/*
-			Try stdin
-		*/
-		file stdio(stdin);
-		JASS_assert(stdio.size() == (std::numeric_limits<size_t>::max)());
-
-		/*
-			Try with a FILE *
-		*/
-		file star(nullptr);
-		JASS_assert(stdio.size() == (std::numeric_limits<size_t>::max)());
-
-		/*
-			CHECK SETVBUF
-		*/
-		{
-		auto filename = file::mkstemp("jass");
-		{
-		file tester(filename, "w+b");
-		tester.setvbuf(3);
-		tester.write(example_file);
-		}
-		std::string got;
-		read_entire_file(filename, got);
-		JASS_assert(got == example_file);
-		}
-
-		/*
-			Yay, we passed
-		*/
-		puts("file::PASSED");
-		}
-	}
+/*
+	FILE.CPP
+	--------
+	Copyright (c) 2016 Andrew Trotman
+	Released under the 2-clause BSD license (See:https://en.wikipedia.org/wiki/BSD_licenses)
+
+	Originally from the ATIRE codebase (where it was also written by Andrew Trotman)
+*/
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+#include <sys/stat.h>
+#include <sys/types.h>
+
+#ifdef _MSC_VER
+	#include <io.h>
+#else
+	#include <fcntl.h>
+	#include <unistd.h>
+	#include <sys/mman.h>
+	#include <sys/stat.h>
+	#include <sys/types.h>
+#endif
+#include <limits>
+
+#include "file.h"
+#include "asserts.h"
+
+namespace JASS
+	{
+
+	/*
+		FILE::FILE_READ_ONLY::OPEN()
+		----------------------------
+	*/
+	size_t file::file_read_only::open(const std::string &filename)
+		{
+		#ifdef _MSC_VER
+			hFile = CreateFile(filename.c_str(), GENERIC_READ, 0, NULL, OPEN_EXISTING, FILE_ATTRIBUTE_READONLY, NULL);
+			if (hFile == INVALID_HANDLE_VALUE)
+				return 0;
+
+			hMapFile = CreateFileMapping(hFile, NULL, PAGE_READONLY, 0, 0, NULL);
+			if (hMapFile == NULL)
+				{
+				CloseHandle(hFile);
+				return 0;
+				}
+
+			void *lpMapAddress = MapViewOfFile(hMapFile, FILE_MAP_READ, 0, 0, 0);
+			if (lpMapAddress == NULL)
+				{
+				CloseHandle(hFile);
+				CloseHandle(hMapFile);
+				return 0;
+				}
+
+			file_contents = (uint8_t *)lpMapAddress;
+
+			DWORD high;
+			DWORD low = GetFileSize(hFile, &high);
+
+			size = ((uint64_t)high << (uint64_t)32) + (uint64_t)low;
+
+			return size;
+		#else
+			/*
+				Open the file
+			*/
+			int reader;
+
+			if ((reader = ::open(filename.c_str(), O_RDONLY)) < 0)
+				return 0;
+
+			/*
+				Find out how large it is
+			*/
+			struct stat statistics;
+			if (fstat(reader, &statistics) != 0)
+				{
+				close(reader);
+				return 0;
+				}
+
+			/*
+				Allocate space for it and load it
+			*/
+			#ifdef __APPLE__
+				file_contents = (uint8_t *)mmap(nullptr, statistics.st_size, PROT_READ, MAP_PRIVATE, reader, 0);
+			#else
+				file_contents = (uint8_t *)mmap(nullptr, statistics.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, reader, 0);
+			#endif
+
+			/*
+				Close the file
+			*/
+			close(reader);
+
+			if (file_contents == MAP_FAILED)
+				{
+				file_contents = nullptr;
+				return 0;
+				}
+
+			/*
+				Remember the file size
+			*/
+			size = statistics.st_size;
+
+			return size;
+		#endif
+		}
+
+	/*
+		FILE::FILE_READ_ONLY::~FILE_READ_ONLY()
+		---------------------------------------
+	*/
+	file::file_read_only::~file_read_only()
+		{
+		#ifdef _MSC_VER
+			UnmapViewOfFile((void *)file_contents);
+			CloseHandle(hMapFile); // close the file mapping object
+			CloseHandle(hFile);   // close the file itself
+		#else
+			munmap((void *)file_contents, size);
+		#endif
+		}
+
+
+	/*
+		FILE::READ_ENTIRE_FILE()
+		------------------------
+		This uses a combination of "C" FILE I/O and C++ strings in order to copy the contents of a file into an internal buffer.
+		There are many different ways to do this, but this is the fastest according to this link: http://insanecoding.blogspot.co.nz/2011/11/how-to-read-in-file-in-c.html
+		Note that there does not appear to be a way in C++ to avoid the initialisation of the string buffer.
+		
+		Returns the length of the file in bytes - which is also the size of the string buffer once read.
+	*/
+		size_t file::read_entire_file(const std::string &filename, std::string &into)
+		{
+		FILE *fp;		
+		// "C" pointer to the file
+#ifdef _MSC_VER
+		struct __stat64 details;				// file system's details of the file
+#else
+		struct stat details;				// file system's details of the file
+#endif
+		size_t file_length = 0;			// length of the file in bytes
+
+		/*
+			Fopen() the file then fstat() it.  The alternative is to stat() then fopen() - but that is wrong because the file might change between the two calls.
+		*/
+		if ((fp = fopen(filename.c_str(), "rb")) != nullptr)
+			{
+#ifdef _MSC_VER
+			if (_fstat64(fileno(fp), &details) == 0)
+#else
+			if (fstat(fileno(fp), &details) == 0)
+#endif
+				if ((file_length = details.st_size) != 0)
+					{
+					into.resize(file_length);
+					if (fread(&into[0], details.st_size, 1, fp) != 1)
+						into.resize(0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
+					}
+			fclose(fp);
+			}
+
+		return file_length;
+		}
+
+	/*
+		FILE::WRITE_ENTIRE_FILE()
+		-------------------------
+		Uses "C" file I/O to write the contents of buffer to the given names file.
+		
+		Returns true on success, else false.
+	*/
+	bool file::write_entire_file(const std::string &filename, const std::string &buffer)
+		{
+		FILE *fp;						// "C" file to write to
+
+		if ((fp = fopen(filename.c_str(), "wb")) == nullptr)
+			return false;
+
+		size_t success = fwrite(&buffer[0], buffer.size(), 1, fp);
+
+		fclose(fp);
+
+		return success == 1 ? true : false;
+		}
+
+	/*
+		FILE::BUFFER_TO_LIST()
+		----------------------
+		Turn a single std::string into a vector of uint8_t * (i.e. "C" Strings). Note that these pointers are in-place.  That is,
+		they point into buffer so any change to the uint8_t or to buffer effect each other.
+		
+		Note: This method removes blank lines from the input file.
+	*/
+	void file::buffer_to_list(std::vector<uint8_t *> &line_list, std::string &buffer)
+		{
+		uint8_t *pos;
+		size_t line_count = 0;
+
+		/*
+			Walk the buffer counting how many lines we think are in there.
+		*/
+		pos = (uint8_t *)&buffer[0];
+		while (*pos != '\0')
+			{
+			if (*pos == '\n' || *pos == '\r')
+				{
+				/*
+					a seperate line is a consequative set of '\n' or '\r' lines.  That is, it removes blank lines from the input file.
+				*/
+				while (*pos == '\n' || *pos == '\r')
+					pos++;
+				line_count++;
+				}
+			else
+				pos++;
+			}
+
+		/*
+			resize the vector to the right size, but first clear it.
+		*/
+		line_list.clear();
+		line_list.reserve(line_count);
+
+		/*
+			Now rewalk the buffer turning it into a vector of lines
+		*/
+		pos = (uint8_t *)&buffer[0];
+		if (*pos != '\n' && *pos != '\r' && *pos != '\0')
+			line_list.push_back(pos);
+		while (*pos != '\0')
+			{
+			if (*pos == '\n' || *pos == '\r')
+				{
+				*pos++ = '\0';
+				/*
+					a seperate line is a consequative set of '\n' or '\r' lines.  That is, it removes blank lines from the input file.
+				*/
+				while (*pos == '\n' || *pos == '\r')
+					pos++;
+				if (*pos != '\0')
+					line_list.push_back(pos);
+				}
+			else
+				pos++;
+			}
+		}
+
+	/*
+		FILE::IS_DIRECTORY()
+		--------------------
+		Determines whether the given file system object is a directoy or not.
+	
+		Returns true if filename is a directory, else returns false.
+	*/
+	bool file::is_directory(const std::string &filename)
+		{
+		#ifdef WIN32
+			struct __stat64 st;				// file system details
+
+			if (_stat64(filename.c_str(), &st) == 0)
+				return (st.st_mode & _S_IFDIR) == 0 ? false : true;		// check the _S_IFDIR flag as there is no S_ISDIR() on Windows
+			return false;
+		#else
+			struct stat st;				// file system details
+
+			if (stat(filename.c_str(), &st) == 0)
+					return S_ISDIR(st.st_mode);		// simply check the S_ISDIR() flag
+			return false;
+		#endif
+		}
+
+	/*
+		FILE::SIZE()
+		------------
+	*/
+	size_t file::size(void) const
+		{
+		/*
+			If we're standard in (stdin) then the file is of infinite length
+		*/
+		if (fp == stdin)
+			return (std::numeric_limits<size_t>::max)();
+
+		/*
+			If we don't exist then we must be 0 in size
+		*/
+		if (fp == nullptr)
+			return 0;
+		/*
+			Since we already have a handle to the file, we just remember where we are,
+			seek to the end and check where that is, and seek back.  This will probably
+			be very fast as it doesn't (normally) need to do and I/O to compute the answer
+		*/
+		#ifdef WIN32
+			int64_t current_position = _ftelli64(fp);
+			if (current_position < 0)
+				return 0;							// this only happens on _ftelli64() failing
+			if (_fseeki64(fp, 0, SEEK_END) < 0)
+				return 0;
+			int64_t file_size = _ftelli64(fp);
+			if (_fseeki64(fp, current_position, SEEK_SET) < 0)
+				return 0;
+		#else
+			off_t current_position = ftello(fp);
+			if (current_position < 0)
+				return 0;							// LCOV_EXCL_LINE // this only happens on ftello() failing
+			if (fseeko(fp, 0, SEEK_END) < 0)
+				return 0;							// LCOV_EXCL_LINE	// when seek fails
+			off_t file_size = ftello(fp);
+			if (fseeko(fp, current_position, SEEK_SET) < 0)
+				return 0;							// LCOV_EXCL_LINE	// seek has failed.
+		#endif
+		
+		/*
+			This will fail in the case where off_t is larger than a size_t.  This is unlikely.
+			On the machines this is being developed on both size_t and off_t are 8-byte integers.
+		*/
+		return file_size < 0 ? 0 : file_size;
+		}
+	
+	/*
+		FILE::MKSTEMP()
+		---------------
+	*/
+	std::string file::mkstemp(std::string prefix)
+		{
+		prefix = prefix + "XXXXXX";
+		#ifdef WIN32
+		auto filename = const_cast<char *>(prefix.c_str());
+			::_mktemp(filename);
+		#else
+			::umask(::umask(0));				// This sets the umask to its current value, and prevents Coverity from producing a warning
+			int file_descriptor = ::mkstemp(const_cast<char *>(prefix.c_str()));
+			if (file_descriptor >= 0)
+				close(file_descriptor);
+		#endif
+		
+		return std::string(prefix.c_str());
+		}
+
+
+	/*
+		FILE::UNITTEST()
+		----------------
+	*/
+	void file::unittest(void)
+		{
+		std::vector<uint8_t *> lines;
+		std::string example_file;
+		std::string reread;
+
+		/*
+			CHECK IS_DIRECTORY()
+		*/
+		/*
+			Dot must be a directory (on Linux and Windows and OS X)
+		*/
+		JASS_assert(is_directory("."));
+		JASS_assert(!is_directory(".JASS."));		// should fail on a file that doesn't exist (but this might, no easy way to check).
+		
+		/*
+			something we know is not a directory.  In this case we'll use this very file.  Yes, this assumes
+			the unit tests are not run when the source code is not available - but I think that's reasonable.
+		*/
+		JASS_assert(!is_directory(__FILE__));
+
+		/*
+			CHECK WRITE_ENTIRE_FILE() then READ_ENTIRE_FILE()
+		*/
+		example_file = "text for example file";			// sample to be written and read back
+		
+		/*
+			create a temporary filename.  There doesn't appear to be a clean way of doing this.
+		*/
+		auto filename = file::mkstemp("jass");
+
+		/*
+			write, read back, and check we didn't lose anything along the way.
+		*/
+		std::string bad_filename = "";
+		write_entire_file(bad_filename, example_file);
+		write_entire_file(filename, example_file);
+		read_entire_file(filename, reread);
+		JASS_assert(example_file == reread);
+		
+		/*
+			Check that read works
+		*/
+		file *disk_object = new file(filename, "rb");
+		std::vector<uint8_t> disk_object_contents;
+		disk_object_contents.resize(example_file.size() + 1024);
+		disk_object->read(disk_object_contents);
+		std::string disk_object_as_string(disk_object_contents.begin(), disk_object_contents.end());
+		JASS_assert(example_file == disk_object_as_string);
+		
+		disk_object->read(disk_object_contents);			// read past end of file
+		JASS_assert(disk_object_contents.size() == 0);
+
+		/*
+			Check seek and tell()
+		*/
+		disk_object->seek(5);
+		uint8_t byte;
+		auto check = disk_object->read(&byte, 1);
+		JASS_assert(check == 1);
+		JASS_assert(byte == example_file[5]);
+		JASS_assert(disk_object->tell() == 6);
+
+		/*
+			Clean up
+		*/
+		delete disk_object;
+		(void)remove(filename.c_str());								// delete the file once we're done with it (cast to void to remove Coverity warning)
+	
+		/*
+			CHECK BUFFER_TO_LIST()
+		*/
+		/*
+			Empty file is of length 0
+		*/
+		example_file = "";
+		buffer_to_list(lines, example_file);
+		JASS_assert(lines.size() == 0);
+
+		/*
+			File with only blank lines is of length 0
+		*/
+		example_file = "\r\n";
+		buffer_to_list(lines, example_file);
+		JASS_assert(lines.size() == 0);
+
+		/*
+			File without any new lines is of length 1
+		*/
+		example_file = "one";
+		buffer_to_list(lines, example_file);
+		JASS_assert(lines.size() == 1);
+		JASS_assert(std::string((char *)lines[0]) == example_file);
+		
+		/*
+			File with a single new line in the middle (none on the end) is of length 2
+		*/
+		example_file = "one\ntwo";
+		buffer_to_list(lines, example_file);
+		JASS_assert(lines.size() == 2);
+		JASS_assert(std::string((char *)lines[0]) == "one");
+		JASS_assert(std::string((char *)lines[1]) == "two");
+
+		/*
+			File with tons of blank lines, this one is of length 2
+		*/
+		example_file = "\n\n\none\r\n\n\rtwo\n\r\n\r\r\r\n\n\n";
+		buffer_to_list(lines, example_file);
+		JASS_assert(lines.size() == 2);
+		JASS_assert(std::string((char *)lines[0]) == "one");
+		JASS_assert(std::string((char *)lines[1]) == "two");
+
+		/*
+			Try stdin
+		*/
+		file stdio(stdin);
+		JASS_assert(stdio.size() == (std::numeric_limits<size_t>::max)());
+
+		/*
+			Try with a FILE *
+		*/
+		file star(nullptr);
+		JASS_assert(stdio.size() == (std::numeric_limits<size_t>::max)());
+
+		/*
+			CHECK SETVBUF
+		*/
+		{
+		auto filename = file::mkstemp("jass");
+		{
+		file tester(filename, "w+b");
+		tester.setvbuf(3);
+		tester.write(example_file);
+		}
+		std::string got;
+		read_entire_file(filename, got);
+		JASS_assert(got == example_file);
+		}
+
+		/*
+			Yay, we passed
+		*/
+		puts("file::PASSED");
+		}
+	}
-- 
2.43.0


From 94a940d80b181467e91fe67160a9e2398fef5efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:22 +0000
Subject: [PATCH 66/72] fix: a file that could not be read was given the length
 of one that was

---
 source/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/file.cpp b/source/file.cpp
index 17fa6e1..555973f 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -161,7 +161,7 @@ namespace JASS
 					{
 					into.resize(file_length);
 					if (fread(&into[0], details.st_size, 1, fp) != 1)
-						into.resize(0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
+						into.resize(file_length = 0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
 					}
 			fclose(fp);
 			}
-- 
2.43.0


From 2a325d0266d496179d5b79620a3ff30143a12ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:22 +0000
Subject: [PATCH 67/72] fix: reading an empty file gave what was in the string
 before

---
 source/file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/file.cpp b/source/file.cpp
index 555973f..b48148d 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -147,6 +147,8 @@ namespace JASS
 #endif
 		size_t file_length = 0;			// length of the file in bytes
 
+		into.resize(0);
+
 		/*
 			Fopen() the file then fstat() it.  The alternative is to stat() then fopen() - but that is wrong because the file might change between the two calls.
 		*/
-- 
2.43.0


From 89dec79a1978e48425adbb0ffe955dc1b0da7a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:22 +0000
Subject: [PATCH 68/72] fix: writing an empty file was taken for a failure, and
 a failure on closing one for success

---
 source/file.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/file.cpp b/source/file.cpp
index b48148d..a72ceba 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -185,11 +185,9 @@ namespace JASS
 		if ((fp = fopen(filename.c_str(), "wb")) == nullptr)
 			return false;
 
-		size_t success = fwrite(&buffer[0], buffer.size(), 1, fp);
+		bool success = fwrite(&buffer[0], 1, buffer.size(), fp) == buffer.size();
 
-		fclose(fp);
-
-		return success == 1 ? true : false;
+		return fclose(fp) == 0 && success;
 		}
 
 	/*
-- 
2.43.0


From 1157a226332e8fdda765421d2e9bc074e2af5f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:22 +0000
Subject: [PATCH 69/72] fix: file::write() did not return the number of bytes
 that were written

---
 source/file.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/file.h b/source/file.h
index f06c2ba..96b99b0 100755
--- a/source/file.h
+++ b/source/file.h
@@ -326,6 +326,7 @@ namespace JASS
 				{
 				uint8_t *from;
 				size_t block_size;
+				size_t bytes = size;
 
 				/*
 					Keep track of the total number of bytes we've been asked to write to the file
@@ -363,7 +364,7 @@ namespace JASS
 						}
 					while (size > 0);
 					}
-				return 1;
+				return bytes;
 				}
 
 			/*
-- 
2.43.0


From 6639edc496c0fae7fac867d8361a885dbbf3e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:22 +0000
Subject: [PATCH 70/72] fix: the position in a file was beyond its end after
 reading up to there

---
 source/file.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/file.h b/source/file.h
index 96b99b0..0e5a445 100755
--- a/source/file.h
+++ b/source/file.h
@@ -278,14 +278,16 @@ namespace JASS
 				flush();
 
 				/*
-					Take note of the new file position (at the end of the read)
+					And now perform the read
 				*/
-				file_position += size;		// this is where we'll be at the end of the read
+				size_t got = ::fread(data, 1, size, fp);
 
 				/*
-					And now perform the read
+					Take note of the new file position (at the end of the read)
 				*/
-				return ::fread(data, 1, size, fp);
+				file_position += got;
+
+				return got;
 				}
 
 			/*
-- 
2.43.0


From 71b03ad13e2bfc007fa513a5497fb483b73417f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:39 +0000
Subject: [PATCH 71/72] fix: what was in the buffer before was taken for the
 part of a file (or of stdin) that is not there

---
 source/instream_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/instream_file.cpp b/source/instream_file.cpp
index 0b27723..f0b0474 100644
--- a/source/instream_file.cpp
+++ b/source/instream_file.cpp
@@ -64,8 +64,8 @@ namespace JASS
 	/*
 		Do the read and note how many bytes we're read.
 	*/
-	if (disk_file.read(&document.contents[0], document.contents.size()) > 0)
-		bytes_read += document.contents.size();
+	document.contents.resize(disk_file.read(&document.contents[0], document.contents.size()));
+	bytes_read += document.contents.size();
 	}
 	
 	/*
-- 
2.43.0


From 7d2f7f9ecc8f06d624f20d83c587e663d50b2f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:39 +0000
Subject: [PATCH 72/72] fix: results that could not be written were taken for
 ones that were

---
 anytime/JASS_anytime.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime.cpp b/anytime/JASS_anytime.cpp
index b244652..bd8cc0f 100755
--- a/anytime/JASS_anytime.cpp
+++ b/anytime/JASS_anytime.cpp
@@ -281,8 +281,11 @@ static int main_event(int argc, const char *argv[])
 			}
 	stats_file << "</JASSv2stats>\n";
 
-	JASS::file::write_entire_file("ranking.txt", TREC_file.str());
-	JASS::file::write_entire_file("JASSv2Stats.txt", stats_file.str());
+	if (!JASS::file::write_entire_file("ranking.txt", TREC_file.str()) || !JASS::file::write_entire_file("JASSv2Stats.txt", stats_file.str()))
+		{
+		std::cout << "Cannot write the results\n";
+		return 1;
+		}
 
 	/*
 		Finally, output how we did.
-- 
2.43.0

