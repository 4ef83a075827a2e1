/*
	Other people's indexes: a CIFF, from its bytes to what is given to the exporters.
*/
#include "verif.h"
#include <string.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <map>
#include <set>
#include <array>
#include <tuple>
#include <atomic>
#include <string>
#include <vector>
#include <limits>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <filesystem>
#include <immintrin.h>
#define private public
#define protected public
#include "slice.h"
#include "parser.h"
#include "hash_table.h"
namespace JASS { template <typename KEY, typename ELEMENT, size_t BITS> using hash_table_small = hash_table<KEY, ELEMENT, 8>; }
#define hash_table hash_table_small
#include "index_manager_sequential.h"
#undef hash_table
#include "file.h"
#include "maths.h"
#include "quantize.h"
#include "quantize_none.h"
#include "serialise_ci.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "serialise_integers.h"
#include "serialise_forward_index.h"
#include "ranking_function_none.h"
#include "ranking_function_atire_bm25.h"
#undef private
#undef protected
#include "runtime.h"
#include "exporters.h"
#define serialise_jass_v1 verif_v1
#define serialise_jass_v2 verif_v2
#define main ciff_main
#include "ciff_to_JASS.cpp"
#undef main
using namespace JASS;

static uint64_t scramble(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }

/*
	the file
*/
static std::string bytes, opened;
extern "C" size_t verif_read_entire_file(const std::string &name, std::string &into) { opened = name; into = bytes; return bytes.size(); }
static void varint(std::string &to, uint64_t x) { for (; x > 127; x >>= 7) to += (char)(x | 0x80); to += (char)x; }
static void number(std::string &to, int field, uint64_t x)
	{
	if (x == 0)
		return;								// as every encoder does
	to += (char)(field << 3);
	varint(to, x);
	}
static void blob(std::string &to, int field, const std::string &what)
	{
	to += (char)(field << 3 | 2);
	varint(to, what.size());
	to += what;
	}
static void message(const std::string &what) { varint(bytes, what.size()); bytes += what; }

/*
	the collection
*/
static const char *words[] = {"alpha", "beta", "7", "\xC3\xA9t\xC3\xA9", "x", "a b", "gamma", "delta"};
static const uint32_t frequencies[] = {1, 2, 1, 3, 255, 1, 256, 1023, 1024, 1025, 65538, 5, 131075, 255, 257, 0x7FFFFFFF};
static std::map<std::string, std::map<uint32_t, uint32_t>> expected;
static std::vector<std::string> keys;
static std::vector<uint64_t> lengths;
static void make(size_t terms, size_t documents, uint64_t seed, uint64_t more_documents, size_t distinct, size_t wrong)
	{
	// wrong: where an unexpected field is, 1 in the header, 2 in a list, 3 in a posting, 4 in a document, 5 documents out of order
	std::string head;
	number(head, 1, 1);
	number(head, 2, terms);
	number(head, 3, documents);
	number(head, 4, terms);
	number(head, 5, documents + more_documents);
	number(head, 6, 1000);
	head += (char)(7 << 3 | 1);
	for (int k = 0; k < 8; k++)
		head += (char)(k * 7);
	blob(head, 8, "made up");
	if (wrong == 1)
		number(head, 9, 5);
	message(head);
	for (size_t t = 0; t < terms; t++)
		{
		std::string list, postings;
		uint32_t last = 0, df = 0;
		std::string word = words[t % 8];
		if (t >= 8)
			word += std::string(t * 35, 'z');
		for (size_t d = 0; d < documents; d++)
			{
			uint64_t r = scramble(seed * 7919 + t * 131 + d);
			if (r % (t % 3 + 1) != 0 && !(d == documents - 1 && df == 0))
				continue;
			uint32_t tf = frequencies[(seed + (r >> 8) % distinct) % 16];
			std::string pair;
			number(pair, 1, df == 0 ? d : d - last);
			number(pair, 2, tf);
			if (wrong == 3 && df == 1)
				number(pair, 3, 1);
			blob(postings, 4, pair);
			last = d;
			df++;
			expected[word][d + 1] = tf > index_postings_impact::largest_impact ? index_postings_impact::largest_impact : tf;
			}
		blob(list, 1, word);
		number(list, 2, df);
		number(list, 3, df * 3);
		list += postings;
		if (wrong == 2 && t == terms / 2)
			number(list, 5, 1);
		message(list);
		}
	for (size_t d = 0; d < documents; d++)
		{
		std::string document;
		keys.push_back("key" + std::to_string(d * 37 + seed));
		if (d == 5 || d == 1)
			keys.back() += std::string(d == 5 ? 300 : 125, 'k');
		lengths.push_back(d == 3 ? 0 : 1 + scramble(seed + d) % 900);
		number(document, 1, wrong == 5 && d == documents - 1 ? d + 1 : d);
		blob(document, 2, keys.back());
		number(document, 3, lengths.back());
		if (wrong == 4 && d == documents / 2)
			number(document, 4, 1);
		message(document);
		}
	}
static int gone;
extern "C" int verif_printf(const char *what) { return strlen(what); }
extern "C" void verif_exit(int code)
	{
	verif_i_true("what is not a CIFF is refused, not indexed", gone && code != 0 && exports.size() == 0);
	throw code;
	}
static constexpr uint32_t largest_impact = index_postings_impact::largest_impact;

extern "C" void verif_h_ciff(uint64_t style, uint64_t version, uint64_t terms, uint64_t documents, uint64_t seed, uint64_t more_documents, uint64_t distinct, uint64_t wrong)
	{
	// style: 0 BM25, 1 -passthrough, 2 -scalepassthrough
	make(terms, documents, seed, more_documents, distinct, wrong);
	gone = wrong;
	std::vector<const char *> argv = {"ciff", "a.file"};
	if (version == 2 && seed % 2)
		argv.push_back("-2");
	if (style)
		argv.push_back(style == 1 ? "-passthrough" : "-scalepassthrough");
	if (version == 2 && seed % 2 == 0)
		argv.push_back("-2");
	int argc = argv.size();
	argv.push_back(nullptr);
	int got;
	try
		{
		got = ciff_main(argc, &argv[0]);
		}
	catch (int)
		{
		return;
		}
	verif_i_true("what is not a CIFF is refused, not indexed", !wrong);
	verif_i_true("a CIFF is converted", got == 0);
	verif_i_true("the file read is that of the command line", opened == "a.file");
	verif_i_true("one index of the version asked for is written", exports.size() == 1 && exports[0].format == (int)version);
	if (exports.size() != 1)
		return;
	auto &out = exports[0];
	verif_i_true("an exporter is told when the index ends, once", out.finished == 1);
	verif_i_true("there are as many primary keys as documents", out.keys.size() == documents + 1);
	for (size_t d = 0; d <= documents && d < out.keys.size(); d++)
		verif_i_true("each document has its primary key", out.keys[d] == (d == 0 ? std::string("-") : keys[d - 1]));
	verif_i_true("there are as many terms as in the CIFF", out.postings.size() == expected.size());

	double total = 0, smallest = 1e300, largest = -1;
	for (auto length : lengths)
		total += length;
	double mean = total / documents;
	std::map<std::string, std::map<uint32_t, double>> scores;
	for (auto &[word, list] : expected)
		for (auto &[d, tf] : list)
			{
			double score = style == 2 ? tf : log((double)(documents + more_documents) / list.size()) * tf * 1.9 / (tf + 0.9 * (0.6 + 0.4 * lengths[d - 1] / mean));
			scores[word][d] = score;
			smallest = score < smallest ? score : smallest;
			largest = score > largest ? score : largest;
			}
	for (auto &[word, list] : expected)
		{
		auto at = out.postings.find(word);
		verif_i_true("every term of the CIFF is a term", at != out.postings.end());
		if (at == out.postings.end())
			continue;
		verif_i_true("a term has as many postings as in the CIFF", at->second.size() == list.size());
		size_t p = 0;
		for (auto &[d, tf] : list)
			{
			if (p < at->second.size())
				{
				uint32_t impact = at->second[p].second;
				verif_i_true("a term has the documents it has in the CIFF", at->second[p].first == d);
				if (style == 1)
					verif_i_true("an impact is that of the CIFF", impact == tf);
				else
					{
					verif_i_true("an impact is from the least to the greatest", impact >= 1 && impact <= largest_impact);
					double exact = largest - smallest < 1e-5 ? 0 : (scores[word][d] - smallest) / (largest - smallest) * (largest_impact - 1);
					if (largest - smallest >= 1e-5)
						verif_i_true("an impact is the score's place between the least and the greatest", impact >= exact - 1e-3 && impact <= exact + 1 + 1e-3);
					}
				}
			p++;
			}
		}
	}
