/*
	Documents that are not text: FASTA (a line of text, then bases of which every k in a row are a word) and uniCOIL (terms and their weights).
*/
#include "verif.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include <iostream>
#include <charconv>
#include <algorithm>
#define private public
#define protected public
#include "slice.h"
#include "ascii.h"
#include "parser.h"
#include "unicode.h"
#include "document.h"
#include "parser_fasta.h"
#include "parser_unicoil_json.h"
#include "unicode_tables.h"
#undef private
#undef protected
#include "runtime.h"
using namespace JASS;

static uint64_t scramble(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }
static constexpr size_t most = 8000;
static uint8_t text[most];
static size_t n;
static void add(const char *what) { while (*what) text[n++] = *what++; }
static void add(size_t number)
	{
	char digits[24];
	size_t d = 0;
	do digits[d++] = '0' + number % 10; while ((number /= 10) != 0);
	while (d > 0) text[n++] = digits[--d];
	}
static slice exactly(void)
	{
	// the document ends where its memory does
	uint8_t *memory = (uint8_t *)malloc(n ? n : 1);
	if (n)
		memcpy(memory, text, n);
	return slice(memory, n);
	}

/*
	FASTA
*/
static const char *headers[] = {">NR_118889.1", ">", "", ">seq1 [Homo sapiens]", "><b>x</b> <i>", ">gatc acgt", ">x\xFF", ">a <tag", ">AT;", ">1"};
static void fasta(size_t header, bool line_end, size_t k, uint64_t seed, size_t length, size_t trailing, bool free)
	{
	static const char bases[] = "ACGTacgt";
	static const char *between[] = {"\n", "N", "x", "\r\n", " ", "NN\n", "N\n", "\n\n", "-", "xN", "N \n "};
	n = 0;
	add(headers[header]);
	size_t header_length = n;
	if (line_end)
		add("\n");
	std::vector<int> run;						// bases, lower case, with -1 between runs
	if (line_end)
		for (size_t b = 0; b < length; b++)
			{
			uint64_t r = scramble(seed * 1000 + b);
			text[n] = bases[r % 8];
			if (free)
				verif_i_fresh_at(&text[n], 8, 5, 1);		// either case
			n++;
			run.push_back(bases[r % 8] | 0x20);
			if ((r >> 8) % (seed % 5 + 2) == 0)
				{
				const char *gap = between[(r >> 16) % 11];
				add(gap);
				for (; *gap; gap++)
					if (*gap == 'N' || *gap == 'x' || *gap == '-')
						run.push_back(-1);
				}
			}
	static const char *ends[] = {"", "\n", "x", "N\n", "\r\n", "\nx\n", "\n \n"};
	if (line_end)
		add(ends[trailing]);

	document d;
	d.contents = exactly();
	parser_fasta reader(k);
	reader.set_document(d);
	parser words;
	document title;
	title.contents = slice(d.contents.address(), header_length);
	words.set_document(title);
	bool indexed = true;
	for (;;)
		{
		const auto &want = words.get_next_token();
		if (want.type == parser::token::eof)
			break;
		const auto &got = reader.get_next_token();
		verif_i_true("a word of the header is a word", got.type == want.type && got.lexeme.size() == want.lexeme.size());
		if (got.type != want.type || got.lexeme.size() != want.lexeme.size())
			return;
		verif_i_same("a word of the header is that word", got.lexeme.address(), want.lexeme.address(), got.lexeme.size(), 1);
		}
	for (size_t start = 0; start + k <= run.size(); start++)
		{
		bool whole = true;
		for (size_t b = 0; b < k; b++)
			whole &= run[start + b] != -1;
		if (!whole)
			continue;
		const auto &got = reader.get_next_token();
		verif_i_true("every run of bases is a word", got.type != parser::token::eof);
		if (got.type == parser::token::eof)
			return;
		verif_i_true("a run of bases is indexed as a word is", got.type == parser::token::alpha && got.count == 1);
		verif_i_true("a run of bases is as long as asked for", got.lexeme.size() == k);
		if (got.lexeme.size() != k)
			return;
		for (size_t b = 0; b < k; b++)
			verif_i_true("a run of bases is those bases", ((uint8_t *)got.lexeme.address())[b] == run[start + b]);
		}
	for (size_t again = 0; again < 3; again++)
		verif_i_true("a document of bases ends after its last run", reader.get_next_token().type == parser::token::eof);
	}
extern "C" void verif_h_fasta(uint64_t header, uint64_t line_end, uint64_t k, uint64_t seed, uint64_t length, uint64_t trailing, uint64_t free) { ascii_code_points(); fasta(header, line_end, k, seed, length, trailing, free); }
extern "C" void verif_h_fasta_long(uint64_t k, uint64_t length)
	{
	// runs longer than a word can be: there are none, and nothing is overwritten
	ascii_code_points();
	n = 0;
	add(">x\n");
	for (size_t b = 0; b < length; b++)
		text[n++] = 'a';
	document d;
	d.contents = exactly();
	parser_fasta *reader = new parser_fasta(k);
	reader->set_document(d);
	size_t tokens = 0;
	for (; tokens < 20; tokens++)
		{
		const auto &got = reader->get_next_token();
		if (got.type == parser::token::eof)
			break;
		if (tokens >= 2)
			{
			verif_i_true("a word fits into a token", got.lexeme.size() <= sizeof(got.buffer) && (const uint8_t *)got.lexeme.address() == got.buffer);
			if (k <= sizeof(got.buffer))
				verif_i_true("a run of bases is as long as asked for", got.lexeme.size() == k);
			}
		}
	size_t runs = length >= k ? length - k + 1 : 0;
	if (k <= parser::token::max_token_length)
		verif_i_true("every run of bases is a word", tokens == (2 + runs < 20 ? 2 + runs : 20));
	}

/*
	uniCOIL
*/
extern "C" void verif_h_unicoil(uint64_t pairs, uint64_t seed, uint64_t before, uint64_t between, uint64_t after, uint64_t letters)
	{
	static const char *befores[] = {"", " ", "\n\t"}, *betweens[] = {", ", ",", " ,\n"}, *colons[] = {": ", ":", " : "}, *afters[] = {"", " ", "}}", " }}\n", "}", "\n"};
	static const size_t weights[] = {1, 94, 255, 256, 65535, 65536, 99999, 1000000, 4294967296ULL, 0, 7, 0, 30, 70000};
	static const char *inside[] = {"\\\"", "\\\\", "\xC3\xA9", "\\u00e9", ":", "1", ",", "7up", "}"};
	struct pair { size_t at, length, weight; } want[64];
	size_t wanted = 0;
	n = 0;
	add(befores[before]);
	for (size_t p = 0; p < pairs; p++)
		{
		uint64_t r = scramble(seed * 1000 + p);
		if (p)
			add(betweens[between]);
		add("\"");
		auto &w = want[wanted];
		w.at = n;
		size_t length = letters ? letters : 1 + r % 9;
		size_t special = (r >> 8) % 3 == 0 ? (r >> 12) % length : length;
		for (size_t b = 0; b < length; b++)
			{
			if (b == special && letters == 0)
				add(inside[(r >> 24) % 9]);
			text[n] = 0x60;
			verif_i_fresh_at(&text[n], 8, 0, 4);			// any of sixteen letters
			n++;
			}
		w.length = n - w.at;
		add("\"");
		add(colons[(r >> 20) % 3]);
		w.weight = weights[(r >> 32) % 14];
		add(w.weight);
		if (w.weight > index_postings_impact::largest_impact)
			w.weight = index_postings_impact::largest_impact;
		if (w.length > parser::token::max_token_length)
			w.length = parser::token::max_token_length;
		if (w.weight != 0)
			wanted++;
		}
	add(afters[after]);

	document d;
	d.contents = exactly();
	parser_unicoil_json *reader = new parser_unicoil_json;
	reader->set_document(d);
	for (size_t p = 0; p < wanted; p++)
		{
		const auto &got = reader->get_next_token();
		verif_i_true("every term of a vector is a word", got.type == parser::token::alpha);
		if (got.type == parser::token::eof)
			return;
		verif_i_true("a term is all of the term", got.lexeme.size() == want[p].length);
		if (got.lexeme.size() == want[p].length)
			verif_i_same("a term is that term", got.lexeme.address(), text + want[p].at, want[p].length, 1);
		verif_i_true("a term has its own weight, limited to the largest", got.count == want[p].weight);
		}
	for (size_t again = 0; again < 3; again++)
		verif_i_true("a vector ends after its last term", reader->get_next_token().type == parser::token::eof);
	}
