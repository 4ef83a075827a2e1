/*
	Indexes for people and other programs: what is printed or exported must be the postings that were indexed.
*/
#include "verif.h"
#include <string.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <map>
#include <array>
#include <tuple>
#include <atomic>
#include <string>
#include <thread>
#include <vector>
#include <limits>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <algorithm>
#include <functional>
#include <immintrin.h>
#define private public
#define protected public
#include "index_postings.h"
#include "serialise_ci.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "serialise_integers.h"
#include "serialise_forward_index.h"
#include "deserialised_jass_v1.h"
#include "deserialised_jass_v2.h"
#include "compress_integer_all.h"
#define main human_main
#include "JASSv1_to_human.cpp"
#undef main
#undef private
#undef protected
#define MANY_STREAMS
#include "runtime.h"
#include "disk.h"
using namespace JASS;

extern "C" uint8_t *verif_buffer(uint8_t *first, size_t n, void *) { memset(first, 0, n < 65536 ? n : 65536); return first + n; }
extern "C" bool verif_same_type(const void *a, const void *b) { return a == b; }
extern "C" size_t verif_read_index(deserialised_jass_v1 *index, const std::string &) { return index->read_index_explicit("CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin"); }
static uint64_t scramble(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }

/*
	an index: documents are counted from one
*/
/*
	a number as text, for whatever of the C library's ways of writing one
*/
static int number_text(char *into, long long x)
	{
	char digits[24];
	size_t n = 0, at = 0;
	do digits[n++] = '0' + x % 10; while ((x /= 10) != 0);
	while (n > 0)
		into[at++] = digits[--n];
	into[at] = 0;
	return at;
	}
extern "C" int verif_sprintf(char *into, const char *, long long x) { return number_text(into, x); }
extern "C" int verif_snprintf(char *into, size_t, const char *, long long x) { return number_text(into, x); }

static const char *words[] = {"alpha", "beta", "gamma", "7", "delta", "\xC3\xA9t\xC3\xA9", "x", "omega"};
static const char *key_names[] = {"k1", "WSJ-0012", "a b", "x", "\"quoted\"", "back\\slash", "k7", "k8"};
static const uint16_t impacts[] = {1, 2, 255, 256, 300, 512, 1000, 1024, 7, 1};
struct a_posting { uint32_t document; uint16_t impact; };
static std::vector<std::vector<a_posting>> lists;
static size_t documents, highest;
static void make(size_t terms, uint64_t seed, size_t how_many_documents, size_t spread, size_t distinct)
	{
	documents = how_many_documents;
	for (size_t t = 0; t < terms; t++)
		{
		std::vector<a_posting> list;
		for (size_t d = 1; d <= documents; d++)
			{
			uint64_t r = scramble(seed * 7919 + t * 131 + d);
			if (r % (t % 3 + 1) == 0 || (d == documents && list.size() == 0))
				list.push_back({(uint32_t)d, impacts[(seed + (r >> 8) % distinct) % 10]});
			}
		lists.push_back(list);
		}
	}
static void give(index_manager::delegate &to)
	{
	allocator_pool memory(1024 * 1024);
	for (size_t t = 0; t < lists.size(); t++)
		{
		index_postings accumulated(memory);
		compress_integer::integer ids[300];
		index_postings_impact::impact_type tfs[300];
		size_t n = 0;
		for (auto &p : lists[t])
			{
			accumulated.push_back(p.document, p.impact);
			ids[n] = p.document;
			tfs[n++] = p.impact;
			}
		to(slice(words[t]), accumulated, n, ids, tfs);
		}
	to(0, slice("-"));
	for (size_t d = 0; d < documents; d++)
		to(d + 1, slice(key_names[d % 8]));
	to.finish();
	}
static void put(std::string &to, const char *what) { to += what; }
static void put(std::string &to, size_t what) { to += std::to_string(what); }

static void printed(const std::string &wanted, const char *got, size_t n)
	{
	verif_i_true("what is printed is as long as it should be", n == wanted.size());
	size_t different = 0;
	for (size_t k = 0; k < n && k < wanted.size(); k++)
		different += got[k] != wanted[k];
	verif_i_true("what is printed is what was indexed", different == 0);
	}

extern "C" void verif_h_print(uint64_t version, uint64_t codec, uint64_t terms, uint64_t seed, uint64_t how_many_documents, uint64_t distinct, uint64_t style)
	{
	make(terms, seed, how_many_documents, 1, distinct);
		{
		index_manager::delegate *out;
		if (version == 1)
			out = new serialise_jass_v1(documents, (serialise_jass_v1::jass_v1_codex)codec, 16);
		else
			out = new serialise_jass_v2(documents, (serialise_jass_v1::jass_v1_codex)codec, 1);
		give(*out);
		delete out;
		}
	std::vector<const char *> argv = {"human"};
	if (version == 2)
		argv.push_back("-2");
	if (style & 1)
		argv.push_back("-A");
	if (style & 2)
		argv.push_back("-d");
	int argc = argv.size();
	argv.push_back(nullptr);
	const void *stream = &std::cout;
	verif_i_true("an index is printed", human_main(argc, &argv[0]) == 0);

	std::string wanted;
	if (!(style & 1))
		put(wanted, style & 2 ? "\nDICTIONARY\n----------\n" : "\nPOSTINGS LISTS\n-------------\n");
	std::vector<size_t> order;
	for (size_t t = 0; t < terms; t++)
		order.push_back(t);
	for (size_t a = 0; a < terms; a++)
		for (size_t b = a + 1; b < terms; b++)
			if (strcmp(words[order[b]], words[order[a]]) < 0)
				std::swap(order[a], order[b]);
	for (size_t t : order)
		{
		put(wanted, words[t]);
		if (!(style & 2))
			{
			put(wanted, " ");
			for (size_t impact = 1024; impact > 0; impact--)
				for (auto &p : lists[t])
					if (p.impact == impact)
						{
						put(wanted, "<"); put(wanted, p.document - 1); put(wanted, ","); put(wanted, impact); put(wanted, ">");
						}
			}
		put(wanted, "\n");
		}
	if (!style)
		{
		put(wanted, "\nPRIMARY KEY LIST\n----------------\n");
		for (size_t d = 0; d < documents; d++)
			{
			put(wanted, key_names[d % 8]); put(wanted, "\n");
			}
		}
	printed(wanted, streamed, streamed_bytes);
	}

extern "C" void verif_h_export(uint64_t format, uint64_t terms, uint64_t seed, uint64_t how_many_documents, uint64_t distinct)
	{
	make(terms, seed, how_many_documents, 1, distinct);
	std::string wanted;
	if (format == 0)
		{
		serialise_forward_index *out = new serialise_forward_index(documents);
		give(*out);
		delete out;
		for (size_t d = 1; d <= documents; d++)
			{
			std::string line;
			for (size_t t = 0; t < terms; t++)
				for (auto &p : lists[t])
					if (p.document == d)
						{
						put(line, words[t]); put(line, ":"); put(line, p.impact); put(line, " ");
						}
			if (line.size() == 0)
				continue;
			put(wanted, "<DOC><DOCNO>"); put(wanted, d); put(wanted, "</DOC"); 			// whatever the closing tag is
			image *file = find_file("JASS_forward.index", false);
			size_t at = wanted.size();
			if (file != nullptr)
				while (at < file->length && file->data[at] != '>')
					wanted += (char)file->data[at++];
			put(wanted, ">"); put(wanted, line.c_str()); put(wanted, "</DOC>\n");
			}
		image *file = find_file("JASS_forward.index", false);
		verif_i_true("a forward index is written", file != nullptr);
		if (file != nullptr)
			printed(wanted, (char *)file->data, file->length);
		}
	else if (format == 1)
		{
		serialise_integers *out = new serialise_integers(documents);
		give(*out);
		delete out;
		std::vector<uint32_t> all;
		for (size_t t = 0; t < terms; t++)
			for (size_t impact = 1024; impact > 0; impact--)
				{
				size_t at = all.size();
				for (auto &p : lists[t])
					if (p.impact == impact)
						{
						if (all.size() == at)
							all.push_back(0);
						all[at]++;
						all.push_back(p.document - 1);
						}
				}
		image *file = find_file("postings.bin", false);
		verif_i_true("integers are written", file != nullptr);
		if (file != nullptr)
			printed(std::string((char *)all.data(), all.size() * sizeof(uint32_t)), (char *)file->data, file->length);
		}
	else
		{
		serialise_ci *out = new serialise_ci(documents);
		give(*out);
		delete out;
		std::string functions, names, keys;
		for (size_t t = 0; t < terms; t++)
			{
			put(functions, "void T_"); put(functions, words[t]); put(functions, "(query_heap &q)\n{\n");
			for (auto &p : lists[t])
				{
				put(functions, "q.add_rsv("); put(functions, p.document); put(functions, ","); put(functions, p.impact); put(functions, ");\n");
				}
			put(functions, "}\n");
			put(names, "{\""); put(names, words[t]); put(names, "\",T_"); put(names, words[t]); put(names, "},\n");
			}
		put(keys, "\"-\",\n");
		for (size_t d = 0; d < documents; d++)
			{
			put(keys, "\"");
			for (const char *at = key_names[d % 8]; *at; at++)
				{
				if (*at == '"' || *at == '\\')
					keys += '\\';
				keys += *at;
				}
			put(keys, "\",\n");
			}
		put(names, "};\nuint64_t dictionary_length = "); put(names, terms); put(names, ";\n");
		put(keys, "};\n");
		static const char *file_names[] = {"JASS_postings.cpp", "JASS_vocabulary.cpp", "JASS_primary_keys.cpp"};
		const std::string *all[] = {&functions, &names, &keys};
		for (size_t k = 0; k < 3; k++)
			{
			image *file = find_file(file_names[k], false);
			verif_i_true("a compiled index is written", file != nullptr && file->length >= all[k]->size());
			if (file != nullptr && file->length >= all[k]->size())
				printed(*all[k], (char *)file->data + file->length - all[k]->size(), all[k]->size());
			}
		}
	}
