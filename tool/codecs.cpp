/*
	The codecs of the repository behind one uniform set of entry points, for the abstract interpreter.
*/
#include <new>
#include <stdint.h>
#include <stddef.h>
#include "compress_integer.h"
#include "compress_integer_none.h"
#include "compress_integer_carry_8b.h"
#include "compress_integer_simple_9.h"
#include "compress_integer_simple_8b.h"
#include "compress_integer_simple_16.h"
#include "compress_integer_bitpack_64.h"
#include "compress_integer_elias_gamma.h"
#include "compress_integer_elias_delta.h"
#include "compress_integer_bitpack_128.h"
#include "compress_integer_bitpack_256.h"
#include "compress_integer_qmx_jass_v1.h"
#include "compress_integer_relative_10.h"
#include "compress_integer_carryover_12.h"
#include "compress_integer_variable_byte.h"
#include "compress_integer_qmx_improved.h"
#include "compress_integer_qmx_original.h"
#include "compress_integer_stream_vbyte.h"
#include "compress_integer_simple_9_packed.h"
#include "compress_integer_elias_delta_simd.h"
#include "compress_integer_simple_16_packed.h"
#include "compress_integer_simple_8b_packed.h"
#include "compress_integer_elias_gamma_simd.h"
#include "compress_integer_bitpack_32_reduced.h"
#include "compress_integer_elias_gamma_bitwise.h"
#include "compress_integer_elias_delta_bitwise.h"
#include "compress_integer_elias_gamma_simd_vb.h"
#include "compress_integer_lyck_16.h"
#include "compress_integer_nybble_8.h"

#define CODEC(name) \
	extern "C" void verif_ctor_##name(void *p) { new (p) JASS::compress_integer_##name(); } \
	extern "C" const size_t verif_size_##name = sizeof(JASS::compress_integer_##name); \
	extern "C" size_t verif_encode_##name(void *p, void *to, size_t length, const uint32_t *from, size_t n) { return static_cast<JASS::compress_integer_##name *>(p)->encode(to, length, from, n); } \
	extern "C" void verif_decode_##name(void *p, uint32_t *to, size_t n, const void *from, size_t length) { static_cast<JASS::compress_integer_##name *>(p)->decode(to, n, from, length); }

CODEC(none) CODEC(carry_8b) CODEC(simple_9) CODEC(simple_8b) CODEC(simple_16) CODEC(bitpack_64) CODEC(elias_gamma) CODEC(elias_delta)
CODEC(bitpack_128) CODEC(bitpack_256) CODEC(qmx_jass_v1) CODEC(relative_10) CODEC(carryover_12) CODEC(variable_byte) CODEC(qmx_improved)
CODEC(qmx_original) CODEC(stream_vbyte) CODEC(simple_9_packed) CODEC(elias_delta_simd) CODEC(simple_16_packed) CODEC(simple_8b_packed)
CODEC(elias_gamma_simd) CODEC(bitpack_32_reduced) CODEC(elias_gamma_bitwise) CODEC(elias_delta_bitwise) CODEC(elias_gamma_simd_vb)
CODEC(lyck_16) CODEC(nybble_8)
