/*
	The accumulator tables: whatever the memory held and whatever earlier queries wrote, a new query sees zero everywhere, and a write is seen there and only there.
*/
#include "verif.h"
#include <string.h>
#include <math.h>
#include <stdio.h>
#include <new>
#include <vector>
#include <random>
#include <numeric>
#include <limits>
#include <bitset>
#include <algorithm>
#include <immintrin.h>
#define private public
#include "accumulator_2d.h"
#include "accumulator_counter.h"
#include "accumulator_counter_interleaved.h"
#undef private

using namespace JASS;
enum { MOST = 300 };

/*
	a table built on memory that held anything at all
*/
template <typename TABLE> static TABLE &on_garbage(void *memory)
	{
	garbage(memory, sizeof(TABLE));
	return *new (memory) TABLE;
	}

template <typename TABLE, typename ELEMENT>
static void accumulators(size_t documents, size_t width, size_t rewinds, size_t stale_every, size_t first, size_t stride)
	{
	alignas(64) static uint8_t memory[sizeof(TABLE)];
	static ELEMENT expected[MOST];
	TABLE &table = on_garbage<TABLE>(memory);

	table.init(documents, width);
	verif_i_true("the table has the number of elements asked for", table.size() == documents);
	table.rewind();
	for (size_t round = 0; round < rewinds; round++)
		{
		/*
			other queries write here and there, each with its own values
		*/
		if (stale_every && round % stale_every == 0)
			for (size_t d = round % 3; d < documents; d += 1 + round % 4)
				any(table[d]);
		table.rewind();
		}
	for (size_t d = 0; d < documents; d++)
		{
		expected[d] = 0;
		same("at the start of a query every accumulator reads zero", table.get_value(d), expected[d]);
		}

	/*
		two writes each, read back by both ways of reading, nothing else changes
	*/
	size_t step = stride ? stride : 1;
	for (size_t d = first; d < documents; d += step)
		{
		same("the first access of a query finds zero", table[d], (ELEMENT)0);
		ELEMENT score;
		any(score);
		table[d] = score;
		expected[d] = score;
		verif_i_true("the index of an element is found from its address", (size_t)table.get_index(&table[d]) == d);
		}
	for (size_t d = 0; d < documents; d++)
		same("a write is seen where it was made and nowhere else", table.get_value(d), expected[d]);
	for (size_t d = first; d < documents; d += step + 1)
		{
		ELEMENT score;
		any(score);
		table[d] = score;
		expected[d] = score;
		}
	for (size_t d = 0; d < documents; d++)
		{
		same("a write is seen where it was made and nowhere else", table.get_value(d), expected[d]);
		same("both ways of reading agree", table[d], expected[d]);
		}
	/*
		and the next query starts at zero
	*/
	table.rewind();
	for (size_t d = 0; d < documents; d++)
		same("at the start of a query every accumulator reads zero", table.get_value(d), (ELEMENT)0);
	for (size_t d = 0; d < documents; d++)
		same("the first access of a query finds zero", table[documents - 1 - d], (ELEMENT)0);
	}

/*
	a table that is given a different number of documents
*/
template <typename TABLE, typename ELEMENT>
static void again(size_t before, size_t width_before, size_t documents, size_t width, size_t held)
	{
	alignas(64) static uint8_t memory[sizeof(TABLE)];
	memset(memory, held, sizeof(memory));
	TABLE &table = held > 255 ? on_garbage<TABLE>(memory) : *new (memory) TABLE;
	table.init(before, width_before);
	table.rewind();
	for (size_t d = 0; d < before; d++)
		any(table[d]);
	table.init(documents, width);
	verif_i_true("the table has the number of elements asked for", table.size() == documents);
	table.rewind();
	for (size_t d = 0; d < documents; d++)
		same("after another init every accumulator reads zero", table.get_value(d), (ELEMENT)0);
	for (size_t d = 0; d < documents; d++)
		same("after another init every accumulator reads zero", table[d], (ELEMENT)0);
	}
#define ONE(name, type, element, ...)\
extern "C" void verif_h_##name(uint64_t documents, uint64_t width, uint64_t rewinds, uint64_t stale_every, uint64_t first, uint64_t stride)\
	{ typedef type<element, MOST __VA_ARGS__> table; accumulators<table, element>(documents, width, rewinds, stale_every, first, stride); }\
extern "C" void verif_h_again_##name(uint64_t before, uint64_t width_before, uint64_t documents, uint64_t width, uint64_t held)\
	{ typedef type<element, MOST __VA_ARGS__> table; again<table, element>(before, width_before, documents, width, held); }
#define COMMA ,
ONE(accumulator_2d_8, accumulator_2d, uint8_t)
ONE(accumulator_2d_16, accumulator_2d, uint16_t)
ONE(accumulator_2d_64, accumulator_2d, uint64_t)
ONE(accumulator_counter_8_8, accumulator_counter, uint8_t, COMMA 8)
ONE(accumulator_counter_8_4, accumulator_counter, uint8_t, COMMA 4)
ONE(accumulator_counter_16_8, accumulator_counter, uint16_t, COMMA 8)
ONE(accumulator_counter_16_4, accumulator_counter, uint16_t, COMMA 4)
ONE(accumulator_counter_interleaved_8_8, accumulator_counter_interleaved, uint8_t, COMMA 8)
ONE(accumulator_counter_interleaved_8_8_1, accumulator_counter_interleaved, uint8_t, COMMA 8 COMMA 1)
ONE(accumulator_counter_interleaved_8_8_16, accumulator_counter_interleaved, uint8_t, COMMA 8 COMMA 16)
ONE(accumulator_counter_interleaved_8_4, accumulator_counter_interleaved, uint8_t, COMMA 4)
ONE(accumulator_counter_interleaved_16_8, accumulator_counter_interleaved, uint16_t, COMMA 8)
ONE(accumulator_counter_interleaved_16_4, accumulator_counter_interleaved, uint16_t, COMMA 4)

/*
	whole vectors of accumulators at once: the lanes named by 'which' (packed in bytes), some of them already in use by this query
*/
template <typename VECTOR> struct lanes;
template <> struct lanes<__m256i> { enum { count = 8 }; static __m256i load(const uint32_t *p) { return _mm256_loadu_si256((const __m256i *)p); } static void store(uint32_t *p, __m256i v) { _mm256_storeu_si256((__m256i *)p, v); } };
#ifdef __AVX512F__
template <> struct lanes<__m512i> { enum { count = 16 }; static __m512i load(const uint32_t *p) { return _mm512_loadu_si512(p); } static void store(uint32_t *p, __m512i v) { _mm512_storeu_si512(p, v); } };
#endif
template <typename ELEMENT, typename VECTOR>
static void vector_access(size_t documents, size_t width, size_t rewinds, size_t start, size_t step, size_t used)
	{
	typedef accumulator_2d<ELEMENT, MOST> table_type;
	alignas(64) static uint8_t memory[sizeof(table_type)];
	table_type &table = on_garbage<table_type>(memory);
	static ELEMENT expected[MOST];
	uint32_t which[16], got[16];

	table.init(documents, width);
	table.rewind();
	for (size_t round = 0; round < rewinds; round++)
		{
		for (size_t d = 0; d < documents; d++)
			any(table[d]);
		table.rewind();
		}
	for (size_t d = 0; d < documents; d++)
		expected[d] = 0;
	for (size_t d = 0; d < documents; d += used ? used : documents)
		{
		any(expected[d]);
		table[d] = expected[d];
		}
	for (size_t k = 0; k < lanes<VECTOR>::count; k++)
		which[k] = (start + k * step) % documents;
	lanes<VECTOR>::store(got, table[lanes<VECTOR>::load(which)]);
	for (size_t k = 0; k < lanes<VECTOR>::count; k++)
		same("a vector of accumulators reads the same as one at a time", got[k], (uint32_t)expected[which[k]]);
	for (size_t d = 0; d < documents; d++)
		same("a vector read leaves every accumulator as it was", table.get_value(d), expected[d]);
	for (size_t k = 0; k < lanes<VECTOR>::count; k++)
		same("after a vector read the accumulators can be written in place", table.accumulator[which[k]], expected[which[k]]);
	for (size_t k = 0; k < lanes<VECTOR>::count; k++)
		{
		any(expected[which[k]]);
		table.accumulator[which[k]] = expected[which[k]];
		}
	for (size_t d = 0; d < documents; d++)
		same("after a vector read the accumulators can be written in place", table.get_value(d), expected[d]);
	}
extern "C" void verif_h_vector_256_8(uint64_t documents, uint64_t width, uint64_t rewinds, uint64_t start, uint64_t step, uint64_t used) { vector_access<uint8_t, __m256i>(documents, width, rewinds, start, step, used); }
extern "C" void verif_h_vector_256_16(uint64_t documents, uint64_t width, uint64_t rewinds, uint64_t start, uint64_t step, uint64_t used) { vector_access<uint16_t, __m256i>(documents, width, rewinds, start, step, used); }
#ifdef __AVX512F__
extern "C" void verif_h_vector_512_8(uint64_t documents, uint64_t width, uint64_t rewinds, uint64_t start, uint64_t step, uint64_t used) { vector_access<uint8_t, __m512i>(documents, width, rewinds, start, step, used); }
extern "C" void verif_h_vector_512_16(uint64_t documents, uint64_t width, uint64_t rewinds, uint64_t start, uint64_t step, uint64_t used) { vector_access<uint16_t, __m512i>(documents, width, rewinds, start, step, used); }
#endif
