/*
	The index as it is built in memory: postings that accumulate, and the dictionary that finds them.
*/
#include "verif.h"
#include <string.h>
#include <map>
#include <array>
#include <tuple>
#include <atomic>
#include <string>
#include <thread>
#include <vector>
#include <limits>
#include <memory>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#define private public
#define protected public
#include "slice.h"
#include "posting.h"
#include "hash_table.h"
#include "binary_tree.h"
#include "allocator_pool.h"
#include "index_postings.h"
#include "index_postings_impact.h"
#undef private
#undef protected

using namespace JASS;

static uint64_t scramble(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }
static const uint32_t amounts[] = {1, 1, 2, 1, 3, 127, 128, 255, 256, 1023, 1024, 1025, 5000, 65535, 512, 600};
static constexpr size_t most = 80;

static uint32_t any_gap(uint64_t seed, size_t p, size_t widest)
	{
	uint64_t width = scramble(seed * 131 + p) % widest + 1;
	uint32_t gap = 0;
	verif_i_fresh(&gap, 32, width - 1, 1);
	return gap;
	}

static void check_linear(index_postings &postings, const uint32_t *ids, const uint16_t *tfs, size_t n)
	{
	uint8_t *temporary = new uint8_t[n * 5 + 1];
	compress_integer::integer *got = new compress_integer::integer[n + 1];
	index_postings_impact::impact_type *frequencies = new index_postings_impact::impact_type[n + 1];
	auto df = postings.linearize(temporary, n * 5, got, frequencies, n);
	verif_i_true("every document is there once", df == n);
	if (df != n)
		return;
	verif_i_same("the document ids are the ones added", got, ids, n, 4);
	for (size_t k = 0; k < n; k++)
		same("the frequency is what was added, up to the largest", frequencies[k], tfs[k]);
	}

/*
	one list: `n` documents, each mentioned once or more, with any gap between them; the first `at_once` are added together
*/
extern "C" void verif_h_accumulate(uint64_t n, uint64_t seed, uint64_t widest, uint64_t mentions, uint64_t at_once)
	{
	allocator_pool memory(1024 * 1024);
	uint32_t ids[most], last = 0;
	uint16_t tfs[most];
	index_postings postings(memory);
	std::vector<posting> data;
	for (size_t p = 0; p < n; p++)
		{
		uint32_t gap = any_gap(seed, p, widest);
		last += gap;
		ids[p] = last;
		uint32_t total = 0;
		if (at_once && p < at_once)
			{
			total = amounts[scramble(seed * 31 + p) % 16];
			{ posting one; one.docid = gap; one.term_frequency = total; data.push_back(one); }
			}
		else
			{
			if (p == at_once && at_once != 0)
				postings.push_back(data);
			for (size_t m = 0; m <= scramble(seed * 17 + p) % mentions; m++)
				{
				uint16_t amount = amounts[scramble(seed * 31 + p * 7 + m) % 16];
				postings.push_back(last, amount);
				total += amount;
				}
			}
		tfs[p] = total > index_postings_impact::largest_impact ? index_postings_impact::largest_impact : total;
		}
	if (at_once >= n)
		postings.push_back(data);
	check_linear(postings, ids, tfs, n);
	}

/*
	any amounts, as long as they do not come to more than the largest
*/
extern "C" void verif_h_amounts(uint64_t n, uint64_t seed, uint64_t mentions)
	{
	allocator_pool memory(1024 * 1024);
	uint32_t ids[most];
	uint16_t tfs[most];
	index_postings postings(memory);
	for (size_t p = 0; p < n; p++)
		{
		ids[p] = p * 3 + 1;
		uint16_t total = 0;
		for (size_t m = 0; m < mentions; m++)
			{
			uint16_t amount = 0;
			verif_i_fresh(&amount, 16, 10 - mentions, -1);
			postings.push_back(ids[p], amount);
			total += amount;
			}
		tfs[p] = total;
		}
	check_linear(postings, ids, tfs, n);
	}

/*
	impact ordering: each document under its own frequency, in order, nothing lost and nothing shared
*/
extern "C" void verif_h_impact_order(uint64_t n, uint64_t seed, uint64_t distinct)
	{
	allocator_pool memory(1024 * 1024);
	compress_integer::integer ids[most];
	index_postings_impact::impact_type tfs[most];
	for (size_t p = 0; p < n; p++)
		{
		any(ids[p]);
		uint32_t amount = amounts[(seed + scramble(seed * 31 + p) % distinct) % 16];
		tfs[p] = amount > index_postings_impact::largest_impact ? index_postings_impact::largest_impact : amount;
		}
	index_postings postings(memory);
	auto *impacts = new index_postings_impact(n, memory);
	postings.impact_order(n, *impacts, n, ids, tfs);
	size_t at = 0, seen = 0;
	for (size_t tf = 0; tf <= index_postings_impact::largest_impact; tf++)
		{
		size_t expected = 0;
		for (size_t p = 0; p < n; p++)
			expected += tfs[p] == tf;
		if (expected == 0)
			continue;
		verif_i_true("there is a list for every frequency", at < impacts->impact_size());
		if (at >= impacts->impact_size())
			return;
		auto &header = impacts->begin()[at++];
		verif_i_true("lists are in order of frequency", header.impact_score == tf);
		verif_i_true("a list holds each document with its frequency once", header.size() == expected);
		if (header.size() != expected)
			return;
		for (size_t p = 0, k = 0; p < n; p++)
			if (tfs[p] == tf)
				{
				uint32_t wanted = ids[p];
				same("a list holds the documents with its frequency, in the order they were added", header.begin()[k], wanted);
				k++;
				}
		seen += expected;
		}
	verif_i_true("there are no other lists", at == impacts->impact_size() && seen == n);
	}

/*
	a list of tens of thousands of documents, over a handful of frequencies
*/
extern "C" void verif_h_long_order(uint64_t n, uint64_t seed)
	{
	allocator_pool memory(4 * 1024 * 1024);
	auto *ids = new compress_integer::integer[n];
	auto *tfs = new index_postings_impact::impact_type[n];
	size_t each[4] = {0, 0, 0, 0};
	static const uint16_t values[] = {3, 255, 256, 1024};
	for (size_t p = 0; p < n; p++)
		{
		size_t which = p % 16 == seed % 16 ? 1 : p % 64 == 5 ? 3 : p % 256 == 6 ? 0 : 2;
		tfs[p] = values[which];
		each[which]++;
		ids[p] = p * 2;
		if (p % 512 == seed % 512)
			verif_i_fresh_at(&ids[p], 32, 0, 1);
		}
	index_postings postings(memory);
	auto *impacts = new index_postings_impact(n, memory);
	postings.impact_order(n, *impacts, n, ids, tfs);
	verif_i_true("there is a list for every frequency, and no other", impacts->impact_size() == 4);
	if (impacts->impact_size() != 4)
		return;
	uint32_t *at[4];
	for (size_t which = 0; which < 4; which++)
		{
		auto &header = impacts->begin()[which];
		verif_i_true("lists are in order of frequency", header.impact_score == values[which]);
		verif_i_true("a list holds each document with its frequency once", header.size() == each[which]);
		if (header.size() != each[which])
			return;
		at[which] = header.begin();
		}
	for (size_t p = 0; p < n; p++)
		{
		size_t which = tfs[p] == 3 ? 0 : tfs[p] == 255 ? 1 : tfs[p] == 256 ? 2 : 3;
		if (p % 512 == seed % 512 || p % 311 == 0)
			same("a list holds the documents with its frequency, in the order they were added", *at[which], ids[p]);
		at[which]++;
		}
	}

/*
	The dictionary.  How keys hash is fixed by the harness, collisions included: keys are any text apart from their length and the top of their first byte.
*/
static uint64_t collide;
extern "C" size_t verif_hash(const slice &key) { return collide == 0 ? 7 : collide == 1 ? (key[0] >> 5) * 31 % 256 : (key.size() * 37 + (key[0] >> 4)) % 256; }

struct cell
	{
	uint32_t value;
	cell(allocator &) : value(0) {}
	};

extern "C" void verif_h_dictionary(uint64_t n, uint64_t seed, uint64_t collisions, uint64_t different)
	{
	collide = collisions;
	allocator_pool memory(1024 * 1024);
	auto *dictionary = new hash_table<slice, cell, 8>(memory);
	uint8_t text[16][16][24];					// by place and by length less one
	uint32_t wanted[16][16];
	bool used[16][16];
	for (size_t place = 0; place < 16; place++)
		for (size_t length = 1; length <= 5; length++)
			used[place][length] = false;
	size_t keys = 0;
	for (size_t k = 0; k < n; k++)
		{
		size_t place = scramble(seed * 41 + k) % different, length = 1 + scramble(seed * 43 + k * 3) % 5;
		uint8_t *at = text[place][length];
		if (!used[place][length])
			{
			for (size_t c = 0; c < length; c++)
				any(at[c]);
			at[0] = place << 4;
			verif_i_fresh_at(at, 8, 0, 4);
			}
		/*
			the key is somewhere else each time, and what it was read from changes afterwards
		*/
		uint8_t *key = new uint8_t[length];
		memcpy(key, at, length);
		uint32_t &value = (*dictionary)[slice((void *)key, length)].value;
		if (!used[place][length])
			{
			keys++;
			used[place][length] = true;
			wanted[place][length] = 0;
			}
		same("a key finds what was stored under it, and a new key finds nothing", value, wanted[place][length]);
		any(value);
		wanted[place][length] = value;
		garbage(key, length);
		}
	size_t found = 0;
	for (const auto [key, element] : *dictionary)
		{
		found++;
		size_t place = key[0] >> 4, length = key.size();
		verif_i_true("iteration gives keys that were stored", used[place][length]);
		verif_i_same("iteration gives each key as it was stored", key.address(), text[place][length], length, 1);
		uint32_t value = element.value;
		same("iteration gives each key with its element", value, wanted[place][length]);
		used[place][length] = false;
		}
	verif_i_true("iteration gives every key once", found == keys);
	}

/*
	keys that are known, and hard to tell apart: they differ only after a zero byte, after a long common start, in the top bit of a byte, or in length
*/
extern "C" void verif_h_dictionary_keys(uint64_t n, uint64_t seed, uint64_t collisions, uint64_t start)
	{
	collide = collisions;
	allocator_pool memory(1024 * 1024);
	auto *dictionary = new hash_table<slice, cell, 8>(memory);
	static const uint8_t bytes[] = {0x00, 0x01, 'a', 0x7F, 0x80, 0xFF};
	static uint8_t text[300][40];
	static uint8_t lengths[300];
	static uint32_t wanted[300];
	size_t keys = 0;
	for (size_t k = 0; k < n; k++)
		{
		uint64_t r = scramble(seed * 53 + k);
		size_t tail = 1 + r % 3, length = start + tail;
		uint8_t *key = new uint8_t[length];
		for (size_t c = 0; c < start; c++)
			key[c] = c % 5 == 3 ? 0 : c % 7 == 5 ? 0xE9 : 'b';
		for (size_t c = 0; c < tail; c++)
			key[start + c] = bytes[r >> (8 + c * 8) & 1 ? 0 : (r >> (10 + c * 8)) % 6];
		size_t which = 0;
		while (which < keys && (lengths[which] != length || memcmp(text[which], key, length) != 0))
			which++;
		uint32_t &value = (*dictionary)[slice((void *)key, length)].value;
		if (which == keys)
			{
			memcpy(text[which], key, length);
			lengths[which] = length;
			wanted[which] = 0;
			keys++;
			}
		same("a key finds what was stored under it, and a new key finds nothing", value, wanted[which]);
		any(value);
		wanted[which] = value;
		garbage(key, length);
		}
	size_t found = 0;
	for (const auto [key, element] : *dictionary)
		{
		found++;
		size_t which = 0;
		while (which < keys && (lengths[which] != key.size() || memcmp(text[which], key.address(), key.size()) != 0))
			which++;
		verif_i_true("iteration gives keys that were stored", which < keys);
		if (which == keys)
			return;
		uint32_t value = element.value;
		same("iteration gives each key with its element", value, wanted[which]);
		lengths[which] = 0;
		}
	verif_i_true("iteration gives every key once", found == keys);
	}
