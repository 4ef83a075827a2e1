/*
	An index is written, and read back: whatever the document ids, the terms and the primary keys are, the reader must see what was indexed.
	The C library's files are replaced by arrays of bytes, which may be made to start at any offset so that positions of more than 32 bits occur.
*/
#include "verif.h"
#include <string.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <map>
#include <array>
#include <tuple>
#include <atomic>
#include <string>
#include <thread>
#include <vector>
#include <random>
#include <limits>
#include <memory>
#include <numeric>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <filesystem>
#include <immintrin.h>
#define private public
#define protected public
#include "index_postings.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "deserialised_jass_v1.h"
#include "deserialised_jass_v2.h"
#include "compress_integer_all.h"
#include "compress_integer_none.h"
#include "compress_integer_qmx_jass_v1.h"
#include "compress_integer_elias_gamma_simd.h"
#include "compress_integer_elias_gamma_simd_vb.h"
#include "compress_integer_carry_8b.h"
#include "compress_integer_simple_9.h"
#include "compress_integer_simple_8b.h"
#include "compress_integer_simple_16.h"
#include "compress_integer_bitpack_64.h"
#include "compress_integer_elias_gamma.h"
#include "compress_integer_elias_delta.h"
#include "compress_integer_bitpack_128.h"
#include "compress_integer_bitpack_256.h"
#include "compress_integer_relative_10.h"
#include "compress_integer_carryover_12.h"
#include "compress_integer_qmx_original.h"
#include "compress_integer_qmx_improved.h"
#include "compress_integer_stream_vbyte.h"
#include "compress_integer_variable_byte.h"
#include "compress_integer_simple_9_packed.h"
#include "compress_integer_simple_16_packed.h"
#include "compress_integer_simple_8b_packed.h"
#include "compress_integer_bitpack_32_reduced.h"
#include "compress_integer_elias_gamma_bitwise.h"
#include "compress_integer_elias_delta_bitwise.h"
#include "compress_integer_elias_delta_simd.h"
#undef private
#undef protected

using namespace JASS;

#include "disk.h"

/*
	The serialiser's buffer is megabytes, of which a list of a few postings uses the start: only the start is cleared.
*/
extern "C" uint8_t *verif_buffer(uint8_t *first, size_t n, void *) { memset(first, 0, n < 65536 ? n : 65536); return first + n; }

/*
	what is indexed
*/
static uint64_t scramble(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }
struct list { uint8_t text[24]; size_t length; size_t postings; uint32_t id[64]; uint16_t tf[64]; };

/*
	a term: the first byte fixes its place in the order, the rest is any text
*/
static void make_text(uint8_t *text, size_t length, uint64_t place)
	{
	for (size_t k = 0; k < length; k++)
		{
		text[k] = k == 0 ? (place + 1) << 4 : 0x40;
		verif_i_fresh_at(&text[k], 8, 0, k == 0 ? 4 : 5);
		}
	text[length] = 0;
	}

static const uint16_t frequencies[] = {1, 1, 2, 1, 3, 127, 128, 255, 256, 1023, 1024, 5, 1, 2, 1024, 1};

static void make_list(list &l, size_t postings, uint64_t seed, size_t widest, size_t distinct)
	{
	uint32_t last = 0;
	l.postings = postings;
	for (size_t p = 0; p < postings; p++)
		{
		uint64_t width = scramble(seed * 131 + p) % widest + 1;
		uint32_t gap = 0;
		verif_i_fresh(&gap, 32, width - 1, 1);
		if (p == 0)
			{
			// the first is stored less one: that must not change how many bits it has
			width = width < 2 ? 2 : width;
			gap = (1u << (width - 1)) + (seed % 2 ? 1 : 0);
			if (seed % 2)
				verif_i_fresh_at(&gap, 32, 1, width - 2);
			else
				{
				gap += 1u << (width / 3);
				verif_i_fresh_at(&gap, 32, 0, width / 3);
				if (width > width / 3 + 2)
					verif_i_fresh_at(&gap, 32, width / 3 + 1, width - width / 3 - 2);
				}
			}
		last += gap;
		l.id[p] = last;
		l.tf[p] = frequencies[(seed + (distinct ? scramble(seed + p * 7) % distinct : 0)) % 16];
		}
	}

/*
	the postings of a term as index_postings accumulates them
*/
static void accumulate(index_postings &into, const list &l)
	{
	for (size_t p = 0; p < l.postings; p++)
		into.push_back(l.id[p], l.tf[p]);
	}

static size_t decoded(uint32_t *ids, compress_integer &codex, const deserialised_jass_v1::segment_header &segment, const uint8_t *postings)
	{
	codex.decode(ids, segment.segment_frequency, postings + segment.offset, segment.end - segment.offset);
	uint32_t sum = 0;
	for (size_t k = 0; k < segment.segment_frequency; k++)
		{
		sum += ids[k];
		ids[k] = sum;
		}
	return segment.segment_frequency;
	}

static void check_lists(deserialised_jass_v1 &in, bool v2, compress_integer &codex, list *lists, size_t terms, size_t times)
	{
	auto *segments = new deserialised_jass_v1::segment_header[index_postings_impact::largest_impact + 1];
	uint32_t *ids = new uint32_t[4096];
	for (size_t t = 0; t < terms; t++)
		{
		list &l = lists[t];
		deserialised_jass_v1::metadata metadata;
		query_term term(slice((void *)l.text, l.length), times);
		bool found = v2 ? static_cast<deserialised_jass_v2 &>(in).postings_details(metadata, term) : in.postings_details(metadata, term);
		verif_i_true("every term that was indexed is found", found);
		if (!found)
			return;
		uint32_t smallest, largest;
		query::DOCID_TYPE document_frequency;
		size_t segment_count = in.get_segment_list(segments, metadata, times, smallest, largest, document_frequency);
		verif_i_true("the document frequency is the number of documents the term occurs in", document_frequency == l.postings);
		size_t at = 0, low = 0, high = 0;
		for (size_t tf = index_postings_impact::largest_impact; tf > 0; tf--)
			{
			size_t expected = 0;
			for (size_t p = 0; p < l.postings; p++)
				expected += l.tf[p] == tf;
			if (expected == 0)
				continue;
			if (at >= segment_count)
				{
				verif_i_true("there is a segment for every impact", false);
				return;
				}
			auto &segment = segments[at++];
			verif_i_true("segments are in order of impact, each with its impact times the frequency of the term in the query", segment.impact == tf * times);
			verif_i_true("a segment holds every document with its impact", segment.segment_frequency == expected);
			if (high == 0)
				high = tf * times;
			low = tf * times;
			size_t got = decoded(ids, codex, segment, in.postings());
			for (size_t p = 0, k = 0; p < l.postings && k < got; p++)
				if (l.tf[p] == tf)
					{
					uint32_t wanted = l.id[p] - 1;
					same("the documents of a segment are the ones indexed, counted from zero", ids[k], wanted);
					k++;
					}
			}
		verif_i_true("no segments but those indexed", at == segment_count);
		verif_i_true("the smallest and largest impact are reported", smallest == low && largest == high);
		}
	}

template <typename WRITER, typename READER>
static void round_trip(bool v2, char codex, uint64_t alignment, uint64_t terms, uint64_t postings, uint64_t seed, uint64_t widest, uint64_t distinct, uint64_t base, uint64_t documents)
	{
	static list lists[16];
	uint8_t keys[16][24];
	/*
		write
	*/
		{
		auto *out = new WRITER(64, (serialise_jass_v1::jass_v1_codex)codex, alignment);
		find_file("CIpostings.bin", false)->base = base;
		find_file("CIvocab_terms.bin", false)->base = base / 2;
		index_manager::delegate &to = *out;
		out->postings.file_position += base;
		out->vocabulary_strings.file_position += base / 2;
		if (!v2)
			{
			find_file("CIdoclist.bin", false)->base = base;
			out->primary_keys.file_position += base;
			}
		allocator_pool memory(1024 * 1024);
		for (size_t t = 0; t < terms; t++)
			{
			list &l = lists[t];
			size_t place = terms - t;
			if (t > 0 && t % 3 == 2)
				{
				// a term that is the one before and then some
				memcpy(l.text, lists[t - 1].text, sizeof(l.text));
				l.length = lists[t - 1].length + 1 + t % 2;
				for (size_t k = lists[t - 1].length; k < l.length; k++)
					{
					l.text[k] = 0x40;
					verif_i_fresh_at(&l.text[k], 8, 0, 5);
					}
				l.text[l.length] = 0;
				}
			else
				make_text(l.text, l.length = 1 + (seed + t) % 5, place);
			make_list(l, 1 + (postings + t * 3) % (postings + 1), seed + t, widest, distinct);
			index_postings accumulated(memory);
			accumulate(accumulated, l);
			uint8_t *temporary = new uint8_t[8192];
			compress_integer::integer *ids = new compress_integer::integer[1024];
			index_postings_impact::impact_type *tfs = new index_postings_impact::impact_type[1024];
			auto df = accumulated.linearize(temporary, 8192, ids, tfs, 1024);
			verif_i_true("linearize gives every posting", df == l.postings);
			to(slice((void *)l.text, l.length), accumulated, df, ids, tfs);
			}
		to(0, slice("-"));
		for (size_t d = 0; d < documents; d++)
			{
			size_t length = 1 + (d * 5 + seed) % 9;
			make_text(keys[d], length, d % 15);
			to(d + 1, slice((void *)keys[d], length));
			}
		out->finish();
		delete out;
		}
	/*
		read
	*/
	auto *in = new READER;
	verif_i_true("the index loads", in->read_index_explicit("CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin") != 0);
	verif_i_true("the number of documents is the number indexed", in->document_count() == documents);
	verif_i_true("there is a primary key for each document", in->primary_keys().size() == documents);
	for (size_t d = 0; d < documents && d < in->primary_keys().size(); d++)
		{
		const std::string &key = in->primary_keys()[d];
		size_t length = 1 + (d * 5 + seed) % 9;
		verif_i_true("each primary key has the length it was given", key.size() == length);
		if (key.size() == length)
			verif_i_same("each document has the primary key it was given", key.c_str(), keys[d], length, 1);
		}
	verif_i_true("the number of terms is the number indexed", (size_t)(in->end() - in->begin()) == terms);
	/*
		terms that are not there
	*/
	for (size_t t = 0; t < terms; t++)
		{
		uint8_t other[24];
		deserialised_jass_v1::metadata metadata;
		memcpy(other, lists[t].text, sizeof(other));
		other[lists[t].length] = 0x30;
		query_term longer(slice((void *)other, lists[t].length + 1));
		bool found = v2 ? static_cast<deserialised_jass_v2 *>((deserialised_jass_v1 *)in)->postings_details(metadata, longer) : in->postings_details(metadata, longer);
		verif_i_true("a term that only starts like an indexed one is not found", !found);
		}
	for (uint8_t lead : {(uint8_t)0x01, (uint8_t)0xFF})
		{
		uint8_t other[2] = {lead, 0};
		deserialised_jass_v1::metadata metadata;
		query_term absent(slice((void *)other, 1));
		verif_i_true("a term before the first or after the last is not found", !in->postings_details(metadata, absent));
		}
	std::string name;
	int32_t d_ness;
	auto decoder = base == 0 ? in->codex(name, d_ness) : serialise_jass_v1::get_compressor((serialise_jass_v1::jass_v1_codex)codex, name, d_ness);
	check_lists(*in, v2, *decoder, lists, terms, 1 + seed % 3);
	}

extern "C" void verif_h_v1(uint64_t codex, uint64_t alignment, uint64_t terms, uint64_t postings, uint64_t seed, uint64_t widest, uint64_t distinct, uint64_t base, uint64_t documents)
	{
	round_trip<serialise_jass_v1, deserialised_jass_v1>(false, codex, alignment, terms, postings, seed, widest, distinct, base, documents);
	}
extern "C" void verif_h_v2(uint64_t codex, uint64_t alignment, uint64_t terms, uint64_t postings, uint64_t seed, uint64_t widest, uint64_t distinct, uint64_t base, uint64_t documents)
	{
	round_trip<serialise_jass_v2, deserialised_jass_v2>(true, codex, alignment, terms, postings, seed, widest, distinct, base, documents);
	}

/*
	a list of tens of thousands of documents, which needs counts and positions of more than 16 bits
*/
template <typename WRITER, typename READER>
static void long_list(bool v2, uint64_t n, uint64_t gap, uint64_t seed)
	{
	uint32_t *wanted = new uint32_t[n];
	uint8_t text[8];
	make_text(text, 3, 4);
		{
		auto *out = new WRITER(n * gap, (serialise_jass_v1::jass_v1_codex)'s', 1);
		index_manager::delegate &to = *out;
		allocator_pool memory(4 * 1024 * 1024);
		index_postings unused(memory);
		compress_integer::integer *ids = new compress_integer::integer[n];
		index_postings_impact::impact_type *tfs = new index_postings_impact::impact_type[n];
		for (size_t p = 0; p < n; p++)
			{
			ids[p] = (p + 1) * gap;
			if (p % 1024 == seed % 1024)
				verif_i_fresh_at(&ids[p], 32, 0, 1);
			wanted[p] = ids[p] - 1;
			tfs[p] = 7;
			}
		to(slice((void *)text, 3), unused, n, ids, tfs);
		to(0, slice("-"));
		to(1, slice("key"));
		out->finish();
		delete out;
		}
	auto *in = new READER;
	verif_i_true("the index loads", in->read_index_explicit("CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin") != 0);
	deserialised_jass_v1::metadata metadata;
	query_term term(slice((void *)text, 3), 1);
	bool found = v2 ? static_cast<deserialised_jass_v2 *>((deserialised_jass_v1 *)in)->postings_details(metadata, term) : in->postings_details(metadata, term);
	verif_i_true("every term that was indexed is found", found);
	if (!found)
		return;
	deserialised_jass_v1::segment_header segments[4];
	uint32_t smallest, largest;
	query::DOCID_TYPE document_frequency;
	verif_i_true("one impact, one segment", in->get_segment_list(segments, metadata, 1, smallest, largest, document_frequency) == 1);
	verif_i_true("a segment holds every document with its impact", segments[0].segment_frequency == n && document_frequency == n);
	verif_i_true("a segment ends where it should", segments[0].end - segments[0].offset == n * sizeof(uint32_t));
	if (segments[0].segment_frequency != n || segments[0].end - segments[0].offset != n * sizeof(uint32_t))
		return;
	const uint8_t *at = in->postings() + segments[0].offset;
	uint32_t sum = 0;
	for (size_t p = 0; p < n; p++)
		{
		uint32_t difference;
		memcpy(&difference, at + p * sizeof(difference), sizeof(difference));
		sum += difference;
		if (p % 512 == seed % 512 || p + 1 == n)
			same("the documents of a segment are the ones indexed, counted from zero", sum, wanted[p]);
		}
	}
extern "C" void verif_h_long_v1(uint64_t n, uint64_t gap, uint64_t seed) { long_list<serialise_jass_v1, deserialised_jass_v1>(false, n, gap, seed); }
extern "C" void verif_h_long_v2(uint64_t n, uint64_t gap, uint64_t seed) { long_list<serialise_jass_v2, deserialised_jass_v2>(true, n, gap, seed); }

/*
	the codec an index names is the codec that is used
*/
template <typename CODEC> static void names(char letter, bool differences)
	{
	std::string name;
	int32_t d_ness = 77;
	auto got = serialise_jass_v1::get_compressor((serialise_jass_v1::jass_v1_codex)letter, name, d_ness);
	CODEC *wanted = new CODEC;
	verif_i_true("there is a codec for the letter", got.get() != nullptr);
	verif_i_true("the codec is the one the letter stands for", *(void **)got.get() == *(void **)wanted);
	verif_i_true("the letter says whether ids are stored as differences", d_ness == (differences ? 1 : 0));
	}
extern "C" void verif_h_codec_names(void)
	{
	names<compress_integer_none>('s', false);
	names<compress_integer_qmx_jass_v1>('q', true);
	names<compress_integer_elias_gamma_simd>('G', true);
	names<compress_integer_elias_gamma_simd_vb>('g', true);
	names<compress_integer_elias_delta_simd>('D', true);
	}

/*
	the registry: a codec is the same one by its switch, by its place, and by its name, and no two are called the same
*/
template <typename CODEC> static void registered(const char *shortname)
	{
	CODEC *wanted = new CODEC;
	std::string name(shortname);
	auto got = compress_integer_all::replicate(name);
	verif_i_true("the switch selects its codec", *(void **)got.get() == *(void **)wanted);
	size_t found = 0;
	for (size_t k = 0; k < compress_integer_all::compressors_size; k++)
		{
		std::array<bool, compress_integer_all::compressors_size> selected = {};
		selected[k] = true;
		if (compress_integer_all::compressors[k].shortname != name)
			continue;
		found++;
		auto placed = compress_integer_all::compressor(selected);
		verif_i_true("the place of a switch in the list selects its codec", *(void **)placed.get() == *(void **)wanted);
		auto named = compress_integer_all::get_by_name(compress_integer_all::name(selected));
		verif_i_true("the name of a codec gives that codec", *(void **)named.get() == *(void **)wanted);
		}
	verif_i_true("each switch is listed once", found == 1);
	}
extern "C" void verif_h_registry(void)
	{
	registered<compress_integer_elias_gamma_simd>("-cE");
	registered<compress_integer_elias_gamma_simd_vb>("-cF");
	registered<compress_integer_qmx_jass_v1>("-cZ");
	registered<compress_integer_none>("-cn");
	registered<compress_integer_carry_8b>("-cC");
	registered<compress_integer_simple_9>("-cs");
	registered<compress_integer_simple_8b>("-cT");
	registered<compress_integer_simple_16>("-ct");
	registered<compress_integer_bitpack_64>("-c64");
	registered<compress_integer_elias_gamma>("-cg");
	registered<compress_integer_elias_delta>("-cd");
	registered<compress_integer_bitpack_128>("-c128");
	registered<compress_integer_bitpack_256>("-c256");
	registered<compress_integer_relative_10>("-cr");
	registered<compress_integer_carryover_12>("-cc");
	registered<compress_integer_qmx_original>("-cx");
	registered<compress_integer_qmx_improved>("-cX");
	registered<compress_integer_stream_vbyte>("-cV");
	registered<compress_integer_variable_byte>("-cv");
	registered<compress_integer_simple_9_packed>("-cp");
	registered<compress_integer_elias_delta_simd>("-ce");
	registered<compress_integer_simple_16_packed>("-cq");
	registered<compress_integer_simple_8b_packed>("-cQ");
	registered<compress_integer_bitpack_32_reduced>("-c32r");
	registered<compress_integer_elias_gamma_bitwise>("-cG");
	registered<compress_integer_elias_delta_bitwise>("-cD");
	}
