/*
	The SIMD primitives against their scalar definitions, for every value.
*/
#include "verif.h"
#include <string.h>
#include "simd.h"
#include "compress_integer.h"

using namespace JASS;

/*
	cumulative_sum_256 / cumulative_sum_512 over any gaps, any starting length
*/
static void prefix(uint32_t *sum, const uint32_t *gap, size_t n) { uint32_t total = 0; for (size_t k = 0; k < n; k++) { total += gap[k]; sum[k] = total; } }

extern "C" void verif_h_cumulative_sum_256(uint64_t n)
	{
	alignas(64) uint32_t data[128 + 16], expected[128 + 16];
	any(data, 128 + 16);
	prefix(expected, data, n);
	simd::cumulative_sum_256(data, n);
	verif_i_same("cumulative_sum_256 gives the prefix sums", data, expected, n, 4);
	}

#ifdef __AVX512F__
extern "C" void verif_h_cumulative_sum_512(uint64_t n)
	{
	alignas(64) uint32_t data[128 + 16], expected[128 + 16];
	any(data, 128 + 16);
	prefix(expected, data, n);
	simd::cumulative_sum_512(data, n);
	verif_i_same("cumulative_sum_512 gives the prefix sums", data, expected, n, 4);
	}
extern "C" void verif_h_cumulative_sum_register_512()
	{
	alignas(64) uint32_t data[16], expected[16], got[16];
	any(data, 16);
	prefix(expected, data, 16);
	_mm512_storeu_si512(got, simd::cumulative_sum(_mm512_loadu_si512(data)));
	verif_i_same("cumulative_sum(__m512i) gives the prefix sums", got, expected, 16, 4);
	}
#endif
extern "C" void verif_h_cumulative_sum_register_256()
	{
	alignas(64) uint32_t data[8], expected[8], got[8];
	any(data, 8);
	prefix(expected, data, 8);
	_mm256_storeu_si256((__m256i *)got, simd::cumulative_sum(_mm256_loadu_si256((__m256i *)data)));
	verif_i_same("cumulative_sum(__m256i) gives the prefix sums", got, expected, 8, 4);
	}

/*
	d1 encoding followed by d1 decoding, and by the SIMD sums the query processor uses, in place and out of place
*/
extern "C" void verif_h_d1(uint64_t n, uint64_t in_place)
	{
	alignas(64) uint32_t ids[96], gaps[96], back[96 + 16];
	any(ids, n);
	memcpy(gaps, ids, sizeof(ids));
	size_t wrote = compress_integer::d1_encode(gaps, in_place ? gaps : ids, n);
	verif_i_true("d1_encode reports every integer", wrote == n);
	memcpy(back, gaps, n * 4);
	size_t read = compress_integer::d1_decode(back, in_place ? back : gaps, n);
	verif_i_true("d1_decode reports every integer", read == n);
	verif_i_same("d1_decode inverts d1_encode", back, ids, n, 4);
	any(back, 96 + 16);
	memcpy(back, gaps, n * 4);
	simd::cumulative_sum_256(back, n);
	verif_i_same("cumulative_sum_256 inverts d1_encode", back, ids, n, 4);
#ifdef __AVX512F__
	any(back, 96 + 16);
	memcpy(back, gaps, n * 4);
	simd::cumulative_sum_512(back, n);
	verif_i_same("cumulative_sum_512 inverts d1_encode", back, ids, n, 4);
#endif
	}

/*
	gather and scatter: distinct positions, in any order, adjacent or far apart; stride and rotation are chosen by the caller
*/
static void positions(uint32_t *at, size_t lanes, uint64_t base, uint64_t stride, uint64_t rotate)
	{
	for (size_t k = 0; k < lanes; k++)
		at[k] = (uint32_t)(base + ((k * rotate) % lanes) * stride);
	}

template <typename T> static void gather_256(const char *what, uint64_t base, uint64_t stride, uint64_t rotate)
	{
	alignas(64) T array[160];
	alignas(64) uint32_t at[8], got[8], expected[8];
	any(array, 160);
	positions(at, 8, base, stride, rotate);
	for (size_t k = 0; k < 8; k++) expected[k] = array[at[k]];
	_mm256_storeu_si256((__m256i *)got, simd::gather(array, _mm256_loadu_si256((__m256i *)at)));
	verif_i_same(what, got, expected, 8, 4);
	}
template <typename T> static void scatter_256(const char *what, uint64_t base, uint64_t stride, uint64_t rotate)
	{
	alignas(64) T array[160], expected[160];
	alignas(64) uint32_t at[8], value[8];
	any(array, 160);
	memcpy(expected, array, sizeof(array));
	positions(at, 8, base, stride, rotate);
	any(value, 8);
	for (size_t k = 0; k < 8; k++) expected[at[k]] = (T)value[k];
	simd::scatter(array, _mm256_loadu_si256((__m256i *)at), _mm256_loadu_si256((__m256i *)value));
	verif_i_same(what, array, expected, 160, sizeof(T));
	}
template <typename T> static void scatter_128(const char *what, uint64_t base, uint64_t stride, uint64_t rotate)
	{
	alignas(64) T array[160], expected[160];
	alignas(64) uint32_t at[4], value[4];
	any(array, 160);
	memcpy(expected, array, sizeof(array));
	positions(at, 4, base, stride, rotate);
	any(value, 4);
	for (size_t k = 0; k < 4; k++) expected[at[k]] = (T)value[k];
	simd::scatter(array, _mm_loadu_si128((__m128i *)at), _mm_loadu_si128((__m128i *)value));
	verif_i_same(what, array, expected, 160, sizeof(T));
	}
extern "C" void verif_h_gather_256_8(uint64_t b, uint64_t s, uint64_t r) { gather_256<uint8_t>("8-bit gather of 8 reads exactly the elements asked for", b, s, r); }
extern "C" void verif_h_gather_256_16(uint64_t b, uint64_t s, uint64_t r) { gather_256<uint16_t>("16-bit gather of 8 reads exactly the elements asked for", b, s, r); }
extern "C" void verif_h_gather_256_32(uint64_t b, uint64_t s, uint64_t r) { gather_256<uint32_t>("32-bit gather of 8 reads exactly the elements asked for", b, s, r); }
extern "C" void verif_h_scatter_256_8(uint64_t b, uint64_t s, uint64_t r) { scatter_256<uint8_t>("8-bit scatter of 8 changes exactly the elements named", b, s, r); }
extern "C" void verif_h_scatter_256_16(uint64_t b, uint64_t s, uint64_t r) { scatter_256<uint16_t>("16-bit scatter of 8 changes exactly the elements named", b, s, r); }
extern "C" void verif_h_scatter_256_32(uint64_t b, uint64_t s, uint64_t r) { scatter_256<uint32_t>("32-bit scatter of 8 changes exactly the elements named", b, s, r); }
extern "C" void verif_h_scatter_128_8(uint64_t b, uint64_t s, uint64_t r) { scatter_128<uint8_t>("8-bit scatter of 4 changes exactly the elements named", b, s, r); }
extern "C" void verif_h_scatter_128_16(uint64_t b, uint64_t s, uint64_t r) { scatter_128<uint16_t>("16-bit scatter of 4 changes exactly the elements named", b, s, r); }
extern "C" void verif_h_scatter_128_32(uint64_t b, uint64_t s, uint64_t r) { scatter_128<uint32_t>("32-bit scatter of 4 changes exactly the elements named", b, s, r); }
#ifdef __AVX512F__
template <typename T> static void gather_512(const char *what, uint64_t base, uint64_t stride, uint64_t rotate)
	{
	alignas(64) T array[160];
	alignas(64) uint32_t at[16], got[16], expected[16];
	any(array, 160);
	positions(at, 16, base, stride, rotate);
	for (size_t k = 0; k < 16; k++) expected[k] = array[at[k]];
	_mm512_storeu_si512(got, simd::gather(array, _mm512_loadu_si512(at)));
	verif_i_same(what, got, expected, 16, 4);
	}
template <typename T> static void scatter_512(const char *what, uint64_t base, uint64_t stride, uint64_t rotate)
	{
	alignas(64) T array[160], expected[160];
	alignas(64) uint32_t at[16], value[16];
	any(array, 160);
	memcpy(expected, array, sizeof(array));
	positions(at, 16, base, stride, rotate);
	any(value, 16);
	for (size_t k = 0; k < 16; k++) expected[at[k]] = (T)value[k];
	simd::scatter(array, _mm512_loadu_si512(at), _mm512_loadu_si512(value));
	verif_i_same(what, array, expected, 160, sizeof(T));
	}
extern "C" void verif_h_gather_512_8(uint64_t b, uint64_t s, uint64_t r) { gather_512<uint8_t>("8-bit gather of 16 reads exactly the elements asked for", b, s, r); }
extern "C" void verif_h_gather_512_16(uint64_t b, uint64_t s, uint64_t r) { gather_512<uint16_t>("16-bit gather of 16 reads exactly the elements asked for", b, s, r); }
extern "C" void verif_h_gather_512_32(uint64_t b, uint64_t s, uint64_t r) { gather_512<uint32_t>("32-bit gather of 16 reads exactly the elements asked for", b, s, r); }
extern "C" void verif_h_scatter_512_8(uint64_t b, uint64_t s, uint64_t r) { scatter_512<uint8_t>("8-bit scatter of 16 changes exactly the elements named", b, s, r); }
extern "C" void verif_h_scatter_512_16(uint64_t b, uint64_t s, uint64_t r) { scatter_512<uint16_t>("16-bit scatter of 16 changes exactly the elements named", b, s, r); }
extern "C" void verif_h_scatter_512_32(uint64_t b, uint64_t s, uint64_t r) { scatter_512<uint32_t>("32-bit scatter of 16 changes exactly the elements named", b, s, r); }
#endif

/*
	bzero64: exactly that many 64-byte blocks, nothing beyond
*/
extern "C" void verif_h_bzero64(uint64_t n)
	{
	alignas(64) uint8_t array[64 * 12], expected[64 * 12];
	any(array, sizeof(array));
	memcpy(expected, array, sizeof(array));
	memset(expected, 0, n * 64);
	simd::bzero64(array, (uint32_t)n);
	verif_i_same("bzero64 clears exactly the blocks it was asked to", array, expected, sizeof(array), 1);
	}
