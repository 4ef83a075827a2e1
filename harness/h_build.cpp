/*
	The indexer itself, from the documents to what is given to the exporters.  Files and exporters are replaced by memory; everything between is the repository's.
*/
#include "verif.h"
#include <string.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <map>
#include <set>
#include <array>
#include <tuple>
#include <atomic>
#include <string>
#include <vector>
#include <limits>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include <charconv>
#include <algorithm>
#include <functional>
#include <filesystem>
#include <immintrin.h>
#define private public
#define protected public
#include "slice.h"
#include "parser.h"
#include "hash_table.h"
namespace JASS { template <typename KEY, typename ELEMENT, size_t BITS> using hash_table_small = hash_table<KEY, ELEMENT, 8>; }
#define hash_table hash_table_small
#include "index_manager_sequential.h"
#undef hash_table
#include "unicode_tables.h"
#include "quantize.h"
#include "quantize_none.h"
#include "instream_file.h"
#include "instream_deflate.h"
#include "instream_directory_iterator.h"
#include "serialise_ci.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "serialise_integers.h"
#include "serialise_forward_index.h"
#undef private
#undef protected
#include "runtime.h"

/*
	files
*/
static constexpr size_t most = 60000;
static uint8_t text[most];
static size_t n;
static bool directory;
namespace std { namespace verif_filesystem { struct path { path(const std::string &) {} }; static bool is_directory(const path &) { return directory; } } }
namespace JASS
	{
	static std::string opened;
	class verif_file : public instream
		{
		public:
			size_t at;
			verif_file(const std::string &name) : at(0) { opened = name; }
			virtual void read(document &into)
				{
				size_t bytes = into.contents.size() < n - at ? into.contents.size() : n - at;
				if (bytes)
					memcpy(into.contents.address(), text + at, bytes);
				at += bytes;
				into.contents = slice(into.contents.address(), bytes);
				}
		};
	class verif_through : public instream
		{
		public:
			verif_through(std::shared_ptr<instream> &source) : instream(source) {}
			virtual void read(document &into) { source->read(into); }
		};

	}
#include "exporters.h"
#include "timer.h"
#include "parser.h"
#include "version.h"
#include "commandline.h"
#include "stem_porter.h"
#include "parser_fasta.h"
#include "instream_memory.h"
#include "compress_integer.h"
#include "parser_unicoil_json.h"
#include "instream_document_trec.h"
#include "instream_document_fasta.h"
#include "ranking_function_atire_bm25.h"
#include "instream_document_unicoil_json.h"
#define instream_file verif_file
#define instream_directory_iterator verif_file
#define instream_deflate verif_through
#define serialise_jass_v1 verif_v1
#define serialise_jass_v2 verif_v2
#define serialise_integers verif_integers
#define serialise_ci verif_ci
#define serialise_forward_index verif_forward
#define filesystem verif_filesystem
#define main index_main
#include "JASS_index.cpp"
#undef main
#undef instream_file
#undef filesystem
using namespace JASS;

static uint64_t scramble(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }
extern "C" unsigned long long strtoull(const char *from, char **end, int) throw() { unsigned long long x = 0; while (*from >= '0' && *from <= '9') x = x * 10 + (*from++ - '0'); if (end) *end = (char *)from; return x; }
extern "C" unsigned long strtoul(const char *from, char **end, int base) throw() { return strtoull(from, end, base); }
extern "C" const char *verif_strpbrk(const char *at, const char *any) throw() { for (; *at; at++) for (const char *x = any; *x; x++) if (*x == *at) return at; return nullptr; }
extern "C" const char *verif_strchr(const char *at, int what) { for (; *at; at++) if (*at == (char)what) return at; return what == 0 ? at : nullptr; }
extern "C" int isspace(int c) throw() { return c == ' ' || (c >= 9 && c <= 13); }
static void add(const char *what) { while (*what) text[n++] = *what++; }
extern "C" bool verif_same_type(const void *a, const void *b) { return a == b; }
static void add(const std::string &what) { for (char c : what) text[n++] = c; }

/*
	the collection: each document is a primary key and words with how often they are in it
*/
struct a_document
	{
	std::string key;
	std::map<std::string, uint32_t> words;
	uint64_t length;
	};
static std::vector<a_document> collection;
static const char *vocabulary[] = {"alpha", "beta", "gamma", "delta", "2021", "z", "omega", "sigma", "epsilon", "xi", "17", "theta"};
static const char *inflected[][2] = {{"running", "run"}, {"runs", "run"}, {"run", "run"}, {"cats", "cat"}, {"cat", "cat"}, {"at", "at"}, {"as", "as"}, {"12345", "12345"}, {"hopping", "hop"}, {"relational", "relat"}, {"plastered", "plaster"}, {"CARESSES", "caress"}};
static std::string key_of(size_t d)
	{
	std::string key = "k";
	for (size_t x = d + 1; x; x /= 16)
		key += "bcfghjkmnpqrtvwx"[x % 16];			// nothing that a stemmer would change
	return key;
	}
static void also(a_document &d, const std::string &word) { d.words[word]++; d.length++; }
static void trec(size_t documents, uint64_t seed, size_t words, bool stemmed)
	{
	for (size_t d = 0; d < documents; d++)
		{
		a_document object = {key_of(d), {}, 0};
		add("<DOC>\n<DOCNO>"); add(object.key); add("</DOCNO>\n<TITLE class=\"big\">");
		also(object, object.key);
		size_t here = words == 0 ? 0 : words > 800 && d == 0 ? words : scramble(seed * 977 + d) % (words > 800 ? 9 : words + 1);
		for (size_t w = 0; w < here; w++)
			{
			uint64_t r = scramble(seed * 100003 + d * 1009 + w);
			size_t which = words > 800 && d == 0 ? (w % 64 == 0 ? 1 : 0) : r % 12;
			std::string word = stemmed ? inflected[which][0] : vocabulary[which];
			if (!stemmed && (r >> 8) % 5 == 0 && word[0] >= 'a')
				word[0] -= 0x20;
			add(word);
			add((r >> 16) % 7 == 0 ? "</TITLE> " : (r >> 16) % 7 == 1 ? ", " : (r >> 16) % 7 == 2 ? "<b>" : (r >> 16) % 7 == 3 ? "\n" : " ");
			also(object, stemmed ? inflected[which][1] : vocabulary[which]);
			}
		add("</DOC>\n");
		collection.push_back(object);
		}
	}
static void fasta(size_t documents, uint64_t seed, size_t bases, size_t k)
	{
	for (size_t d = 0; d < documents; d++)
		{
		a_document object = {">" + key_of(d) + " human", {}, 0};
		add(object.key); add("\n");
		also(object, key_of(d));
		also(object, "human");
		std::string run;
		size_t here = scramble(seed * 977 + d) % (bases + 1);
		for (size_t b = 0; b < here; b++)
			{
			uint64_t r = scramble(seed * 100003 + d * 1009 + b);
			char base = "ACGT"[r % 4];
			text[n++] = base;
			run += base | 0x20;
			if (run.size() >= k)
				also(object, run.substr(run.size() - k));
			if ((r >> 8) % 10 == 0)
				add("\n");
			}
		add("\n");
		collection.push_back(object);
		}
	}
static void unicoil(size_t documents, uint64_t seed, size_t words)
	{
	for (size_t d = 0; d < documents; d++)
		{
		a_document object = {key_of(d), {}, 0};
		add("{\"id\": \""); add(object.key); add("\", \"contents\": \"alpha beta\", \"vector\": {");
		size_t here = scramble(seed * 977 + d) % (words + 1), written = 0;
		for (size_t w = 0; w < here; w++)
			{
			uint64_t r = scramble(seed * 100003 + d * 1009 + w);
			const char *word = vocabulary[r % 12];
			if (object.words.count(word))
				continue;
			uint32_t weight = (r >> 8) % 5 == 0 ? 1000 + (r >> 16) % 50 : 1 + (r >> 16) % 255;
			if (written++)
				add(", ");
			add("\""); add(word); add("\": "); add(std::to_string(weight));
			object.words[word] = weight;
			object.length++;
			}
		add("}}\n");
		collection.push_back(object);
		}
	}

static constexpr uint32_t largest_impact = index_postings_impact::largest_impact;
extern "C" void verif_h_build(uint64_t format, uint64_t documents, uint64_t seed, uint64_t size, uint64_t exporters, uint64_t atire, uint64_t impacts)
	{
	// format: 0 TREC, 1 TREC stemmed, 2 uniCOIL in a file, 3 uniCOIL in a directory, 10 + k FASTA
	if (format <= 1)
		trec(documents, seed, size, format == 1);
	else if (format <= 3)
		unicoil(documents, seed, size);
	else
		fasta(documents, seed, size, format - 10);
	ascii_code_points();
	directory = format == 3;
	verif_i_true("the collection fits", n < most);

	std::vector<const char *> argv = {"index", "-q", "-f", "the.name"};
	if (format == 1)
		argv.push_back("-tp");
	if (format == 2 || format == 3)
		argv.push_back("-djc");
	std::string k = std::to_string(format > 10 ? format - 10 : 0);
	if (format > 10)
		{
		argv.push_back("-IF");
		argv.push_back(k.c_str());
		}
	if (atire)
		argv.push_back("-A");
	if (seed % 3 != 2)
		{
		argv.push_back("-N");						// how often to report makes no difference
		argv.push_back(seed % 3 == 0 ? "0" : "2");
		}
	static const char *switches[] = {"-I1", "-I2", "-Ib", "-Ic", "-If"};
	for (size_t e = 0; e < 5; e++)
		if (exporters & (1 << e))
			argv.push_back(switches[e]);
	int argc = argv.size();
	argv.push_back(nullptr);
	int got = index_main(argc, &argv[0]);
	verif_i_true("a collection is indexed", got == 0);
	verif_i_true("the file that is indexed is that of the command line", opened == "the.name");

	/*
		what should have been exported
	*/
	std::map<std::string, std::map<uint32_t, uint32_t>> expected;
	double total = 0, tolerance = 1e-3;
	for (size_t d = 0; d < collection.size(); d++)
		{
		for (auto &[word, times] : collection[d].words)
			expected[word][d + 1] = times > largest_impact ? largest_impact : times;
		total += collection[d].length + atire;
		}
	double mean = total / collection.size(), smallest = 1e300, largest = -1;
	std::map<std::string, std::map<uint32_t, double>> scores;
	for (auto &[word, list] : expected)
		for (auto &[d, tf] : list)
			{
			double score = log((double)collection.size() / list.size()) * tf * 1.9 / (tf + 0.9 * (0.6 + 0.4 * (collection[d - 1].length + atire) / mean));
			scores[word][d] = score;
			smallest = score < smallest ? score : smallest;
			largest = score > largest ? score : largest;
			}
	size_t seen = 0;
	for (size_t e = 0; e < 5; e++)
		if (exporters & (1 << e))
			{
			size_t which = exports.size();
			for (size_t x = 0; x < exports.size(); x++)
				if (exports[x].format == 1 << e)
					which = x;
			verif_i_true("each format asked for is exported", which < exports.size());
			if (which == exports.size())
				continue;
			seen++;
			auto &out = exports[which];
			if (!impacts)
				{
				verif_i_true("an exporter is told when the index ends, once", out.finished == 1);
				verif_i_true("an exporter is told how many documents there are", out.documents == collection.size());
				verif_i_true("there are as many primary keys as documents", out.keys.size() == collection.size() + 1);
				for (size_t d = 0; d <= collection.size() && d < out.keys.size(); d++)
					verif_i_true("each document has its primary key", out.keys[d] == (d == 0 ? std::string("-") : collection[d - 1].key));
				verif_i_true("there are as many terms as words", out.postings.size() == expected.size());
				for (auto &[word, list] : expected)
					{
					auto at = out.postings.find(word);
					verif_i_true("every word is a term", at != out.postings.end());
					if (at == out.postings.end())
						continue;
					verif_i_true("a term has as many postings as documents that have the word", at->second.size() == list.size());
					size_t p = 0;
					for (auto &[d, tf] : list)
						{
						if (p < at->second.size())
							{
							verif_i_true("a term has the documents that have the word, in order", at->second[p].first == d);
							if (format == 2 || format == 3)
								verif_i_true("a weight is that of the document", at->second[p].second == tf);
							}
						p++;
						}
					}
				}
			else
				{
				bool low = false, high = false, constant = largest - smallest < 1e-5;
				for (auto &[word, list] : out.postings)
					for (auto &[d, impact] : list)
						{
						verif_i_true("an impact is from the least to the greatest", impact >= 1 && impact <= largest_impact);
						auto w = scores.find(word);
						if (w == scores.end() || w->second.count(d) == 0)
							continue;
						low |= impact == 1;
						high |= impact == largest_impact;
						if (constant)
							continue;
						double exact = (w->second[d] - smallest) / (largest - smallest) * (largest_impact - 1);
						verif_i_true("an impact is the score's place between the least and the greatest", impact >= exact - tolerance && impact <= exact + 1 + tolerance);
						}
				if (!constant)
					{
					verif_i_true("the least score has the least impact", low);
					verif_i_true("the greatest score has the greatest impact", high);
					}
				else
					for (auto &[word, list] : out.postings)
						for (auto &[d, impact] : list)
							verif_i_true("equal scores have equal impacts", impact == out.postings.begin()->second[0].second);
				}
			}
	verif_i_true("nothing else is exported", exports.size() == seen);
	}
