/*
	The top-k machinery for every assignment of scores, one weak order of the scores at a time (only comparisons and sums of scores are ever made).
*/
#include "verif.h"
#include <string.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <random>
#include <limits>
#include <numeric>
#include <sstream>
#include <chrono>
#include <iostream>
#include <algorithm>
#include <functional>
#include <immintrin.h>
#define private public
#define protected public
#include "heap.h"
#include "beap.h"
#include "top_k_qsort.h"
#include "pointer_box.h"
#include "query_heap.h"
#include "query_heap_clean.h"
#include "compress_integer_variable_byte.h"
#include "compress_integer_elias_gamma_simd_vb.h"
#include "compress_integer_none.h"
#include "compress_integer_simple_8b.h"
#include "top_k_heap.h"
#include "allocator_pool.h"
#undef private
#undef protected

using namespace JASS;

template <typename T> static T place(uint64_t rank, uint64_t group = 1) { T x; verif_i_ranked(&x, sizeof(T) * 8, group, rank); return x; }
static inline uint64_t nibble(uint64_t packed, uint64_t k) { return (packed >> (k * 4)) & 15; }

/*
	what is the document in the given place (0 is the best) when documents are ordered on score then on document id?
*/
static int64_t expected_at(const uint64_t *rank, size_t documents, size_t where)
	{
	for (size_t d = 0; d < documents; d++)
		{
		size_t better = 0;
		for (size_t o = 0; o < documents; o++)
			if (rank[o] > rank[d] || (rank[o] == rank[d] && o > d))
				better++;
		if (rank[d] && better == where)
			return d;
		}
	return -1;
	}

static size_t full(query_heap_clean *query) { return query->size(); }
static void top_up(query_heap_clean *query) { query->top_up(); }
static size_t full(query_heap *query) { return 0; }
static void top_up(query_heap *query) { }

template <typename QUERY>
static void top_k(QUERY *query, size_t documents, size_t k, size_t postings, uint64_t which, uint64_t totals, size_t rewinds, uint64_t bound)
	{
	auto least = bound ? place<query::ACCUMULATOR_TYPE>(bound) : (query::ACCUMULATOR_TYPE)1;
	static std::vector<std::string> keys;
	keys.resize(documents);
	query->init(keys, documents, k, 1);
	query->rewind(1, rewinds ? 1 : least, 1);
	for (size_t round = 0; round < rewinds; round++)
		{
		/*
			what another query left behind
		*/
		for (size_t d = 0; d < documents; d++)
			query->add_rsv(d, place<query::ACCUMULATOR_TYPE>(d + 1, 2));
		if (round & 1)
			query->begin();
		query->rewind(1, round + 1 == rewinds ? least : 1, 1);
		}

	uint64_t rank[16] = {0};
	for (size_t p = 0; p < postings; p++)
		{
		uint64_t d = nibble(which, p), r = nibble(totals, p);
		query::ACCUMULATOR_TYPE score = place<query::ACCUMULATOR_TYPE>(r) - place<query::ACCUMULATOR_TYPE>(rank[d]);
		try
			{
			query->add_rsv(d, score);
			}
		catch (Done &)
			{
			/*
				with an oracle: the top k is full (the caller may then stop, or carry on with other postings)
			*/
			}
		rank[d] = r;
		}
	if (bound && full(query) < k)
		top_up(query);

	size_t found = 0;
	for (size_t d = 0; d < documents; d++)
		if (rank[d])
			found++;
	if (found > k)
		found = k;

	size_t at = 0;
	auto last = query->rend();
	for (auto result = query->rbegin(); result != last; ++result)
		{
		auto pair = *result;
		verif_i_true("no more results than documents found", at < found);
		if (at >= found)
			return;
		int64_t wanted = expected_at(rank, documents, at);
		verif_i_true("the document in each place is the one exhaustive evaluation puts there", (int64_t)pair.document_id == wanted);
		if (wanted >= 0)
			same("the score of each result is the sum of its postings", pair.rsv, place<query::ACCUMULATOR_TYPE>(rank[wanted]));
		verif_i_true("each result carries its own primary key", &pair.primary_key == &keys[pair.document_id]);
		at++;
		}
	verif_i_true("every document that belongs in the top k is there", at == found);
	}

extern "C" void verif_h_query_heap(uint64_t documents, uint64_t k, uint64_t postings, uint64_t which, uint64_t totals, uint64_t rewinds)
	{
	top_k(new query_heap, documents, k, postings, which, totals, rewinds, 0);
	}

/*
	bound: 0, or the place of an oracle's guess at the score of the k-th document
*/
extern "C" void verif_h_query_heap_clean(uint64_t documents, uint64_t k, uint64_t postings, uint64_t which, uint64_t totals, uint64_t rewinds, uint64_t bound)
	{
	top_k(new query_heap_clean, documents, k, postings, which, totals, rewinds, bound);
	}

/*
	The keys in an order given by the case: each is any value at that place of a weak order.
*/
static uint64_t place_of(uint64_t n, uint64_t which, uint64_t k, uint64_t distinct)
	{
	if (n <= 6)
		{
		for (uint64_t skip = 0; skip < k; skip++)
			which /= n;
		return which % n + 1;
		}
	uint64_t state = which * 6364136223846793005ULL + k * 1442695040888963407ULL + 99;
	state ^= state >> 29;
	state *= 0xbf58476d1ce4e5b9ULL;
	state ^= state >> 32;
	switch (which % 5)
		{
		case 0: return k % distinct + 1;										// ascending runs
		case 1: return (n - k) % distinct + 1;								// descending runs
		case 2: return (k < n / 2 ? k : n - k) % distinct + 1;			// organ pipe
		default: return state % distinct + 1;
		}
	}

static size_t smaller(const uint64_t *rank, size_t n, uint64_t than)
	{
	size_t answer = 0;
	for (size_t k = 0; k < n; k++)
		if (rank[k] < than)
			answer++;
	return answer;
	}
static uint64_t kth(const uint64_t *rank, size_t n, size_t k)			// the rank of the k-th smallest
	{
	uint64_t best = 0;
	for (size_t i = 0; i < n; i++)
		if (smaller(rank, n, rank[i]) <= k && rank[i] > best)
			best = rank[i];
	return best;
	}

/*
	top_k_qsort: the first top_k are the smallest top_k, in order; it is a permutation of its input
*/
extern "C" void verif_h_top_k_qsort(uint64_t n, uint64_t which, uint64_t distinct, uint64_t top_k)
	{
	uint64_t rank[256];
	uint64_t *data = new uint64_t[n ? n : 1];
	for (uint64_t k = 0; k < n; k++)
		{
		rank[k] = place_of(n, which, k, distinct);
		data[k] = place<uint64_t>(rank[k]);
		}
	top_k_qsort::sort(data, n, top_k);
	for (uint64_t k = 0; k < n && k < top_k; k++)
		same("sorted", data[k], place<uint64_t>(kth(rank, n, k)));
	if (n <= 12)
		for (uint64_t k = 0; k < n; k++)
			{
			uint64_t before = 0, after = 0, value = place<uint64_t>(rank[k]);
			for (uint64_t i = 0; i < n; i++)
				{
				before += rank[i] == rank[k];
				after += data[i] == value;
				}
			verif_i_true("sorting neither loses nor duplicates", before == after);
			}
	delete [] data;
	}

/*
	heap: after pushing everything that is larger than the front, it holds the largest
*/
extern "C" void verif_h_heap(uint64_t n, uint64_t which, uint64_t distinct, uint64_t size)
	{
	uint64_t rank[256];
	uint64_t *data = new uint64_t[size];
	heap<uint64_t> queue(data, size);
	for (uint64_t k = 0; k < n; k++)
		{
		rank[k] = place_of(n, which, k, distinct);
		if (k < size)
			data[k] = place<uint64_t>(rank[k]);
		if (k + 1 == size)
			queue.make_heap();
		if (k >= size)
			{
			uint64_t key = place<uint64_t>(rank[k]);
			if (key > data[0])
				queue.push_back(key);
			}
		if (k + 1 >= size)
			{
			same("the front of the heap is the smallest of the largest", data[0], place<uint64_t>(kth(rank, k + 1, k + 1 - size)));
			for (uint64_t i = 1; i < size; i++)
				verif_i_true("no parent in the heap is larger than its child", data[(i - 1) / 2] <= data[i]);
			for (uint64_t i = 0; i < size; i++)
				{
				uint64_t count = 0, wanted = 0;
				for (uint64_t j = 0; j < size; j++)
					{
					count += data[j] == data[i];
					wanted += data[i] == place<uint64_t>(kth(rank, k + 1, k + 1 - size + j));
					}
				verif_i_true("the heap holds the largest keys", count == wanted);
				verif_i_true("what is in the heap is found there", queue.find(data[i]) >= 0 && data[queue.find(data[i])] == data[i]);
				}
			}
		}
	delete [] data;
	}

/*
	beap: replacing a key changes that key and nothing else, and what is there can be found (distinct keys, as in the queries)
*/
extern "C" void verif_h_beap(uint64_t n, uint64_t seed, uint64_t at, uint64_t becomes, uint64_t how)
	{
	/*
		n keys of ranks 2,4,...,2n; build a beap by replacing (so it is not merely sorted), then replace the key of rank 2*at by one of rank becomes
	*/
	uint64_t rank[64];
	uint64_t *data = new uint64_t[n];
	beap<uint64_t> queue(data, n);
	for (uint64_t k = 0; k < n; k++)
		{
		rank[k] = 2 * k + 2;
		data[k] = place<uint64_t>(rank[k]);
		}
	queue.make_beap();
	for (uint64_t k = 0; k < seed % 4; k++)
		{
		uint64_t s = seed * 2654435761u + k * 40503u;
		uint64_t victim = (s >> 7) % n, to = 2 * n + 3 + 2 * k;
		queue.guaranteed_replace_with_larger(place<uint64_t>(rank[victim]), place<uint64_t>(to));
		rank[victim] = to;
		}
	uint64_t old_rank = rank[at];
	uint64_t key = place<uint64_t>(old_rank), with = place<uint64_t>(becomes);
	if (how == 0)
		queue.replace(key, with);
	else if (how == 1 && becomes > old_rank)
		queue.guaranteed_replace_with_larger(key, with);
	else if (how == 2 && becomes < old_rank)
		queue.guaranteed_replace_with_smaller(key, with);
	else
		return;
	rank[at] = becomes;
	verif_i_true("it is still a beap", queue.isbeap());
	for (uint64_t k = 0; k < n; k++)
		{
		uint64_t value = place<uint64_t>(rank[k]);
		int64_t where = queue.find(value);
		verif_i_true("every key is found", where >= 0 && where < (int64_t)n && data[where < 0 || where >= (int64_t)n ? 0 : where] == value);
		uint64_t count = 0;
		for (uint64_t i = 0; i < n; i++)
			count += data[i] == value;
		verif_i_true("every key is there once", count == 1);
		verif_i_true("the smallest is at the front", data[0] <= value);
		}
	verif_i_true("a key that is not there is not found", queue.find(place<uint64_t>(4 * n + 40)) < 0);
	verif_i_true("a key that was replaced is not found", queue.find(key) < 0);
	delete [] data;
	}

/*
	top_k_heap: whatever is pushed, the k largest are kept
*/
extern "C" void verif_h_top_k_heap(uint64_t n, uint64_t which, uint64_t distinct, uint64_t k)
	{
	uint64_t rank[256];
	allocator_pool memory;
	top_k_heap<uint64_t> queue(k, memory);
	for (uint64_t i = 0; i < n; i++)
		{
		rank[i] = place_of(n, which, i, distinct);
		queue.push_back(place<uint64_t>(rank[i]));
		}
	uint64_t held = 0;
	for (auto it = queue.begin(); it != queue.end(); ++it)
		held++;
	uint64_t expected = n < k ? n : k;
	verif_i_true("it holds as many as were pushed, up to k", held == expected);
	for (uint64_t i = 0; i < expected; i++)
		{
		uint64_t value = place<uint64_t>(kth(rank, n, n - expected + i)), count = 0, wanted = 0;
		for (auto it = queue.begin(); it != queue.end(); ++it)
			count += *it == value;
		for (uint64_t j = 0; j < expected; j++)
			wanted += kth(rank, n, n - expected + j) == kth(rank, n, n - expected + i);
		verif_i_true("the largest are kept", count == wanted);
		}
	}

/*
	Whole segments: decode_and_process() of the encoded d-gaps adds the impact to exactly the documents of the segment.
*/


static uint64_t gap_of(uint64_t seed, uint64_t k)
	{
	uint64_t state = seed * 6364136223846793005ULL + k * 1442695040888963407ULL + 99;
	state ^= state >> 29;
	state *= 0xbf58476d1ce4e5b9ULL;
	state ^= state >> 32;
	return seed % 3 == 0 ? 1 : seed % 3 == 1 ? 1 + state % 3 : (state % 7 == 0 ? 1 + state % 40 : 1 + state % 2);
	}

template <typename CODEC>
static void segments(uint64_t documents, uint64_t k, uint64_t postings, uint64_t seed, uint64_t second, uint64_t rewinds)
	{
	CODEC *query = new CODEC;
	static std::vector<std::string> keys;
	keys.resize(documents);
	query->init(keys, documents, k, 1);
	query->rewind(1, 1, 1);

	uint32_t *gaps = new uint32_t[documents + 64];
	uint64_t *rank = new uint64_t[documents];
	uint8_t *encoded = new uint8_t[documents * 8 + 512];
	for (uint64_t round = 0; round <= rewinds; round++)
		{
		if (round)
			query->rewind(1, 1, 1);
		for (uint64_t d = 0; d < documents; d++)
			rank[d] = 0;
		for (uint64_t segment = 0; segment < (second ? 2 : 1); segment++)
			{
			/*
				the documents of the second segment are among those of the first
			*/
			uint64_t count = 0, id = 0, previous = 0, seen = 0;
			for (uint64_t d = 0; d < documents; d++)
				{
				bool take = false;
				if (segment == 0)
					{
					if (count < postings && (count == 0 ? d >= seed % 2 : d >= id + gap_of(seed + round, count)))
						take = true;
					}
				else if (rank[d] != 0)
					take = seen++ % second == 0;
				if (take)
					{
					gaps[count++] = (uint32_t)(d - previous);
					previous = d;
					id = d;
					rank[d] = segment == 0 ? 1 : 2;
					}
				}
			if (count == 0)
				continue;
			/*
				document ids in an index start at 1: a gap is never zero
			*/
			if (gaps[0] == 0)
				{
				rank[0] = 0;
				for (uint64_t i = 1; i < count; i++)
					gaps[i - 1] = gaps[i];
				count--;
				}
			if (count == 0)
				continue;
			size_t used = query->encode(encoded, documents * 8 + 512, gaps, count);
			if (used == 0)
				return;			// a codec may refuse
			query::ACCUMULATOR_TYPE impact = segment == 0 ? place<query::ACCUMULATOR_TYPE>(1) : place<query::ACCUMULATOR_TYPE>(2) - place<query::ACCUMULATOR_TYPE>(1);
			query->decode_and_process(impact, count, encoded, used);
			}
		for (uint64_t d = 0; d < documents; d++)
			same("after the segments are processed a document has the impacts of exactly the segments it is in", query->accumulators.get_value(d), place<query::ACCUMULATOR_TYPE>(rank[d]));
		size_t found = 0, at = 0;
		for (uint64_t d = 0; d < documents; d++)
			found += rank[d] != 0;
		found = found > k ? k : found;
		auto last = query->rend();
		for (auto result = query->rbegin(); result != last; ++result)
			{
			auto pair = *result;
			verif_i_true("no more results than documents found", at < found);
			if (at >= found)
				return;
			if (documents <= 40)
				verif_i_true("the document in each place is the one exhaustive evaluation puts there", (int64_t)pair.document_id == expected_at(rank, documents, at));
			at++;
			}
		verif_i_true("every document that belongs in the top k is there", at == found);
		}
	delete [] gaps;
	delete [] rank;
	delete [] encoded;
	}

struct collect { uint32_t ids[4096]; uint64_t count = 0; template <typename A, typename B> void add_rsv(A id, B) { if (count < 4096) ids[count] = id; count++; } };
template <typename CODEC>
static void exported(uint64_t documents, uint64_t postings, uint64_t seed)
	{
	/*
		decode_with_writer(WRITER) hands every document id to the writer, whatever the gaps are
	*/
	CODEC *query = new CODEC;
	static std::vector<std::string> keys;
	keys.resize(documents);
	query->init(keys, documents, 10, 1);
	query->rewind(1, 1, 1);
	uint32_t *gaps = new uint32_t[postings + 1];
	uint8_t *encoded = new uint8_t[postings * 8 + 512];
	for (uint64_t i = 0; i < postings; i++)
		{
		/*
			any odd gap of that many bits (which keeps the width of the gap certain)
		*/
		uint64_t width = gap_of(seed, i) % 12;
		gaps[i] = 1u << width | 1;
		if (width > 1)
			verif_i_fresh_at(gaps + i, 32, 1, width - 1);
		}
	size_t used = query->encode(encoded, postings * 8 + 512, gaps, postings);
	if (postings && !used)
		return;
	collect into;
	query->decode_with_writer(into, postings, encoded, used);
	verif_i_true("the writer is given every posting once", into.count == postings);
	uint32_t id = 0;
	for (uint64_t i = 0; i < postings && i < into.count; i++)
		{
		id += gaps[i];
		same("the writer is given the document ids", into.ids[i], id);
		}
	delete [] gaps;
	delete [] encoded;
	}
#define SEGMENTS(NAME) \
	extern "C" void verif_h_segments_##NAME(uint64_t documents, uint64_t k, uint64_t postings, uint64_t seed, uint64_t second, uint64_t rewinds) { segments<compress_integer_##NAME>(documents, k, postings, seed, second, rewinds); } \
	extern "C" void verif_h_exported_##NAME(uint64_t documents, uint64_t postings, uint64_t seed) { exported<compress_integer_##NAME>(documents, postings, seed); }
SEGMENTS(variable_byte)
SEGMENTS(elias_gamma_simd_vb)
SEGMENTS(none)
SEGMENTS(simple_8b)
