/*
	Turning text into tokens.  The text is a sequence of pieces, each of a known kind (a letter, a digit, a bracket, a broken UTF-8 sequence, ...)
	but, where that is possible, any piece of that kind.  What must come out is computed from the kinds alone.
	The Unicode tables are generated from the Unicode database when JASS is built; they are data here: the few code points used are classified by the harness.
*/
#include "verif.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <map>
#include <array>
#include <tuple>
#include <atomic>
#include <string>
#include <thread>
#include <vector>
#include <limits>
#include <memory>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#define private public
#define protected public
#include "slice.h"
#include "ascii.h"
#include "parser.h"
#include "unicode.h"
#include "document.h"
#include "parser_query.h"
#include "unicode_tables.h"
#undef private
#undef protected

struct piece { const char *bytes; uint8_t length; char kind; uint8_t free_bits; uint32_t codepoint; uint32_t fold[3]; const char *text; };
/*
	kinds: a letter, d digit, s space, o something else, x broken UTF-8 (each broken byte is a piece), and the characters that mark up
*/
static const piece pieces[] =
	{
	{"a", 1, 'a', 0x18, 'a', {'a'}, "a"},					// 0
	{"A", 1, 'a', 0x18, 'A', {'a'}, "a"},					// 1
	{"0", 1, 'd', 0x08, '0', {'0'}, "0"},					// 2
	{" ", 1, 's', 0, ' ', {' '}, ""},						// 3
	{"$", 1, 'o', 0x01, '$', {'$'}, ""},					// 4
	{"<", 1, '<', 0, '<', {'<'}, ""},						// 5
	{">", 1, '>', 0, '>', {'>'}, ""},						// 6
	{"/", 1, '/', 0, '/', {'/'}, ""},						// 7
	{"!", 1, '!', 0, '!', {'!'}, ""},						// 8
	{"?", 1, '?', 0, '?', {'?'}, ""},						// 9
	{"-", 1, '-', 0, '-', {'-'}, ""},						// 10
	{"[", 1, '[', 0, '[', {'['}, ""},						// 11
	{"]", 1, ']', 0, ']', {']'}, ""},						// 12
	{"\"", 1, '"', 0, '"', {'"'}, ""},						// 13
	{"'", 1, '\'', 0, '\'', {'\''}, ""},					// 14
	{"\n", 1, 's', 0, '\n', {'\n'}, ""},					// 15
	{"\xC3\x89", 2, 'a', 0, 0xC9, {0xE9}, "\xC3\xA9"},		// 16	a letter that folds to another of two bytes
	{"\xD9\xA3", 2, 'd', 0, 0x663, {'3'}, "3"},				// 17	a digit that folds to ASCII
	{"\xE2\x80\x83", 3, 's', 0, 0x2003, {0x2003}, ""},		// 18
	{"\xE2\x84\x83", 3, 'o', 0, 0x2103, {0xB0, 'c'}, ""},	// 19
	{"\xF0\x90\x90\x80", 4, 'a', 0, 0x10400, {0x10428}, "\xF0\x90\x90\xA8"},	// 20
	{"\xEF\xAC\x80", 3, 'a', 0, 0xFB00, {'f', 'f'}, "ff"},	// 21	a letter that folds to two
	{"\xFF", 1, 'x', 0, 0, {0}, ""},							// 22
	{"\xC3", 1, 'x', 0, 0, {0}, ""},							// 23	cut short
	{"\x80", 1, 'x', 0, 0, {0}, ""},							// 24	a continuation of nothing
	{"\xE2\x84", 2, 'x', 0, 0, {0}, ""},						// 25	cut short
	{"[CDATA[", 7, 'C', 0, 0, {0}, ""},						// 26
	{"--", 2, '=', 0, 0, {0}, ""},							// 27
	{"-->", 3, 'E', 0, 0, {0}, ""},							// 28
	{"]]>", 3, 'F', 0, 0, {0}, ""},							// 29
	{"?>", 2, 'G', 0, 0, {0}, ""},							// 30
	{"/>", 2, 'H', 0, 0, {0}, ""},							// 31
	};

static void unicode_tables(void)
	{
	ascii_code_points();
	for (auto &p : pieces)
		if (p.codepoint >= 128)
			{
			if (p.kind == 'a') letter(p.codepoint);
			if (p.kind == 'd') number(p.codepoint);
			if (p.kind == 's') { set(JASS_unicode_isspace_data, p.codepoint); set(JASS_unicode_isuspace_data, p.codepoint); }
			JASS_normalisation[p.codepoint] = p.fold;
			}
	}

/*
	the text: one element for each byte that starts a character, in an object that ends where the text does
*/
static constexpr size_t most = 2600;
static uint8_t text[most];				// what the text is
static char kind[most];					// of the character that starts here, or 0
static uint8_t width[most];				// its length
static const char *fold[most];			// what it is in a token
static size_t n;

static void add(const char *bytes, size_t length, char k, uint8_t free_bits, const char *as, bool concrete)
	{
	for (size_t b = 0; b < length; b++)
		{
		text[n + b] = bytes[b];
		kind[n + b] = 0;
		}
	if (free_bits && !concrete)
		{
		size_t first = 0, count = 0;
		while (!(free_bits >> first & 1)) first++;
		while (free_bits >> (first + count) & 1) count++;
		verif_i_fresh_at(&text[n], 8, first, count);
		}
	kind[n] = k;
	width[n] = length;
	fold[n] = as;
	n += length;
	}
static void add(size_t which, bool concrete)
	{
	auto &p = pieces[which];
	if (which >= 26)									// a sequence of ASCII characters
		{
		for (size_t b = 0; b < p.length; b++)
			{
			char c = p.bytes[b];
			add(&p.bytes[b], 1, c >= 'A' && c <= 'Z' ? 'a' : c, 0, c == 'C' ? "c" : c == 'D' ? "d" : c == 'A' ? "a" : "t", true);
			}
		return;
		}
	if (p.kind == 'x')
		for (size_t b = 0; b < p.length; b++)
			add(&p.bytes[b], 1, 'x', 0, "", true);
	else
		add(p.bytes, p.length, p.kind, p.free_bits, p.text, concrete);
	}

/*
	two pieces may come together to be one character: a broken one and what continues it
*/
static bool joined(const uint8_t *order, size_t count)
	{
	for (size_t k = 0; k + 1 < count; k++)
		if ((order[k] == 23 || order[k] == 25) && order[k + 1] == 24)
			return true;
	return false;
	}

struct expected { int type; uint8_t text[2200]; size_t length; };
static size_t at;
static bool name_start(size_t k) { return k < n && (kind[k] == 'a'); }
static bool name_char(size_t k) { return k < n && (kind[k] == 'a' || kind[k] == '-' || (kind[k] == 'd' && text[k] < 0x80)); }
static bool is(size_t k, const char *what) { size_t l = strlen(what); if (k + l > n) return false; for (size_t b = 0; b < l; b++) if (kind[k + b] != (what[b] >= 'A' && what[b] <= 'Z' ? 'a' : what[b]) || (what[b] >= 'A' && what[b] <= 'Z' && text[k + b] != what[b])) return false; return true; }
static void until(expected &e, size_t from, const char *what)
	{
	size_t end = from;
	while (end < n && !is(end, what))
		end++;
	e.length = 0;
	for (size_t k = from; k < end; k++)
		e.text[e.length++] = text[k];
	at = end < n ? end + strlen(what) : n;
	}
/*
	the next token that is a word, a number, or markup
*/
static bool next(expected &e)
	{
	while (at < n)
		{
		char k = kind[at];
		if (k == 'a' || k == 'd')
			{
			e.type = k == 'a' ? parser::token::alpha : parser::token::numeric;
			for (e.length = 0; at < n && kind[at] == k; at += width[at])
				{
				size_t length = strlen(fold[at]);
				if (length == 1 && text[at] < 0x80)
					{
					e.text[e.length] = text[at];
					if (text[at] < 0x60 && k == 'a')
						e.text[e.length] = text[at] | 0x20;
					e.length++;
					}
				else
					for (size_t b = 0; b < length; b++)
						e.text[e.length++] = fold[at][b];
				}
			return true;
			}
		if (k != '<')
			{
			at += width[at];
			continue;
			}
		size_t in = at + 1;
		if (in < n && name_start(in))
			{
			for (e.length = 0; name_char(in); )
				for (size_t w = width[in]; w > 0; w--)
					e.text[e.length++] = text[in++];
			while (in < n && kind[in] != '>')
				{
				if (kind[in] == '"' || kind[in] == '\'')
					{
					char quote = kind[in++];
					while (in < n && kind[in] != quote)
						in++;
					}
				if (in < n)
					in++;
				}
			e.type = text[in - 1] == '/' ? parser::token::xml_empty_tag : parser::token::xml_start_tag;
			at = in < n ? in + 1 : n;
			return true;
			}
		if (in < n && kind[in] == '/' && name_start(in + 1))
			{
			e.type = parser::token::xml_end_tag;
			until(e, in + 1, ">");
			return true;
			}
		if (in < n && kind[in] == '?')
			{
			e.type = parser::token::xml_processing_instruction;
			until(e, in + 1, "?>");
			return true;
			}
		if (in < n && kind[in] == '!')
			{
			in++;
			if (in + 4 < n && is(in, "--"))
				{
				e.type = parser::token::xml_comment;
				until(e, in + 2, "-->");
				return true;
				}
			if (in < n && kind[in] == 'a' && text[in] < 0x60)
				{
				e.type = parser::token::xml_definition;
				until(e, in, ">");
				return true;
				}
			if (in + 9 < n && is(in, "[CDATA["))
				{
				e.type = parser::token::xml_cdata;
				until(e, in + 7, "]]>");
				return true;
				}
			if (in + 4 < n && kind[in] == '[')
				{
				e.type = parser::token::xml_conditional;
				until(e, in + 1, "[");
				return true;
				}
			}
		at = in;
		}
	return false;
	}

static parser *tokeniser;
static void tokenise(bool truncated)
	{
	uint8_t *memory = new uint8_t[n];
	memcpy(memory, text, n);
	document it;
	it.contents = slice(memory, n);
	tokeniser->set_document(it);
	at = 0;
	static expected e;
	bool more = next(e);
	for (size_t turn = 0; turn <= n; turn++)
		{
		auto &token = tokeniser->get_next_token();
		if (token.type == parser::token::eof)
			{
			verif_i_true("every word, number and tag of the text comes out", !more);
			delete [] memory;
			return;
			}
		verif_i_true("a token is never longer than its buffer", token.lexeme.size() <= parser::token::max_token_length);
		if (token.type == parser::token::other)
			continue;
		verif_i_true("nothing comes out that is not in the text", more);
		if (!more)
			return;
		verif_i_true("a token is what its text is: a word, a number, or the kind of markup", token.type == e.type);
		if (token.type != e.type)
			return;
		size_t length = e.length > parser::token::max_token_length ? parser::token::max_token_length : e.length;
		verif_i_true("a token holds all of its text, up to the longest that can be held", token.lexeme.size() == length || (truncated && token.lexeme.size() + 4 > length && token.lexeme.size() <= length));
		if (token.lexeme.size() > length)
			return;
		verif_i_same("a token holds the text it came from, in lower case", token.lexeme.address(), e.text, token.lexeme.size(), 1);
		verif_i_true("a token counts once", token.count == 1);
		more = next(e);
		}
	verif_i_true("the end is reached", false);
	}

static void one(const uint8_t *order, size_t count)
	{
	if (joined(order, count))
		return;
	bool concrete = false;
	for (size_t k = 0; k < count; k++)
		if (order[k] == 16 || order[k] == 17 || order[k] == 20 || order[k] == 21)
			concrete = true;
	n = 0;
	for (size_t k = 0; k < count; k++)
		add(order[k], concrete);
	tokenise(false);
	}

/*
	every text of `count` pieces that starts with those given
*/
extern "C" void verif_h_tokens(uint64_t count, uint64_t first, uint64_t second, uint64_t third)
	{
	unicode_tables();
	tokeniser = new parser;
	uint8_t order[8] = {(uint8_t)first, (uint8_t)second, (uint8_t)third};
	for (uint8_t last = 0; last < 32; last++)
		{
		if (count > 0)
			order[count - 1] = last;
		else if (last > 0)
			break;
		one(order, count);
		}
	}

/*
	every tag whose inside starts with the two pieces given and has five, of what separates and quotes its attributes; words, a tag and numbers follow it
*/
extern "C" void verif_h_tags(uint64_t first, uint64_t second)
	{
	unicode_tables();
	tokeniser = new parser;
	static const uint8_t inside[] = {0, 3, 6, 7, 13, 14, 5, 10};
	for (uint64_t rest = 0; rest < 512; rest++)
		{
		const uint8_t order[] = {5, 0, 3, inside[first], inside[second], inside[rest & 7], inside[rest >> 3 & 7], inside[rest >> 6], 0, 6, 0, 3, 14, 6, 2, 13, 6, 0, 5, 7, 0, 6, 2};
		one(order, sizeof(order));
		}
	}

/*
	the same for queries, which have no markup.  What is after a broken sequence is not looked at.
*/
struct wanted { uint8_t text[200]; size_t length; uint64_t times; };
static wanted want[48];
static size_t terms;
static bool broken;
static void words(bool raw)
	{
	terms = 0;
	broken = false;
	for (size_t k = 0; k < n; )
		{
		if (!raw && kind[k] == 'x')
			{
			broken = true;
			return;
			}
		bool word = raw ? !(text[k] == ' ' || text[k] == '\n') : kind[k] == 'a' || kind[k] == 'd';
		if (!word)
			{
			k += raw ? 1 : width[k];
			continue;
			}
		wanted w;
		w.length = 0;
		w.times = 1;
		char same = kind[k];
		while (k < n && (raw ? !(text[k] == ' ' || text[k] == '\n') : kind[k] == same))
			{
			if (raw)
				w.text[w.length++] = text[k++];
			else
				{
				if (text[k] < 0x80)
					w.text[w.length++] = same == 'a' && text[k] < 0x60 ? text[k] | 0x20 : text[k];
				else
					for (const char *f = fold[k]; *f; f++)
						w.text[w.length++] = *f;
				k += width[k];
				}
			}
		size_t which = 0;
		while (which < terms && (want[which].length != w.length || memcmp(want[which].text, w.text, w.length) != 0))
			which++;
		if (which == terms)
			want[terms++] = w;
		else
			want[which].times++;
		}
	}

struct string_of_query { const char *bytes; size_t length; const char *c_str(void) const { return bytes; } size_t size(void) const { return length; } };
static uint64_t list_memory[sizeof(query_term_list) / 8];
static void ask(const uint8_t *order, size_t count, bool raw)
	{
	if (joined(order, count))
		return;
	n = 0;
	for (size_t k = 0; k < count; k++)
		add(order[k], count > 1);
	words(raw);
	char *memory = new char[n + 1];
	memcpy(memory, text, n);
	memory[n] = '\0';
	uint8_t *space = new uint8_t[n * unicode::max_casefold_expansion_factor * unicode::max_utf8_bytes + 16];
	allocator_memory allocator(space, n * unicode::max_casefold_expansion_factor * unicode::max_utf8_bytes + 16);
	query_term_list &list = *(query_term_list *)list_memory;
	list.terms_in_query = 0;
	parser_query parser(allocator);
	parser.parse(list, string_of_query{memory, n}, raw ? parser_query::raw : parser_query::query);
	memset(memory, '#', n);
	verif_i_true("the words of a query come out once each", broken ? list.size() >= terms : list.size() == terms);
	for (size_t w = 0; w < terms; w++)
		{
		size_t found = 0;
		for (auto &term : list)
			if (term.token().size() == want[w].length && (terms == 1 || memcmp(term.token().address(), want[w].text, want[w].length) == 0))
				{
				found++;
				verif_i_same("a word of a query is written as the same word of a document is", term.token().address(), want[w].text, want[w].length, 1);
				verif_i_true("and it has the number of times it was used", broken ? term.frequency() >= want[w].times : term.frequency() == want[w].times);
				}
		verif_i_true("each word of the query is there", found == 1);
		}
	delete [] memory;
	delete [] space;
	}
extern "C" void verif_h_query(uint64_t count, uint64_t first, uint64_t second, uint64_t third, uint64_t raw)
	{
	unicode_tables();
	uint8_t order[8] = {(uint8_t)first, (uint8_t)second, (uint8_t)third};
	for (uint8_t last = 0; last < 32; last++)
		{
		if (count > 0)
			order[count - 1] = last;
		else if (last > 0)
			break;
		ask(order, count, raw);
		}
	}

static uint64_t scramble(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }
/*
	longer texts, with markup that is mostly closed
*/
extern "C" void verif_h_texts(uint64_t count, uint64_t seed)
	{
	unicode_tables();
	tokeniser = new parser;
	static const uint8_t often[] = {0, 0, 1, 2, 3, 4, 5, 5, 5, 6, 6, 7, 8, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 26, 27, 27, 28, 28, 29, 30, 31};
	for (size_t round = 0; round < 8; round++)
		{
		uint8_t order[40];
		for (size_t k = 0; k < count; k++)
			order[k] = often[scramble(seed * 977 + round * 131 + k) % (round % 2 ? sizeof(often) : 16)];
		one(order, count);
		}
	}

extern "C" void verif_h_queries(uint64_t count, uint64_t seed, uint64_t raw)
	{
	unicode_tables();
	static const uint8_t often[] = {0, 0, 1, 2, 3, 3, 3, 15, 4, 16, 17, 20, 21, 18, 19, 3, 3, 22, 8};
	for (size_t round = 0; round < 4; round++)
		{
		uint8_t order[48];
		for (size_t k = 0; k < count; k++)
			order[k] = often[scramble(seed * 977 + round * 131 + k) % (round % 2 ? sizeof(often) : sizeof(often) - 2)];
		ask(order, count, raw);
		}
	}

/*
	words, numbers, tags and comments around the length of the buffer
*/
extern "C" void verif_h_long_token(uint64_t what, uint64_t length, uint64_t piece)
	{
	unicode_tables();
	tokeniser = new parser;
	n = 0;
	if (what == 1)
		add(5, true);
	if (what == 2)
		{ add(5, true); add(7, true); add(0, true); }
	if (what == 3)
		{ add(5, true); add(8, true); add(27, true); }
	if (what == 4)
		{ add(5, true); add(9, true); }
	if (what == 5)
		{ add(5, true); add(8, true); add(26, true); }
	if (what == 6)
		add(0, true);
	while (n < length)
		add(piece, true);
	if (what != 0)
		add(what == 3 ? 28 : what == 4 ? 30 : what == 5 ? 29 : 6, true);
	add(3, true);
	add(2, true);
	tokenise(pieces[piece].length > 1 || pieces[piece].fold[1]);
	}

/*
	every code point whose highest bit is the one given, to UTF-8 and back, in buffers that are exactly large enough, and too small
*/
extern "C" void verif_h_utf8(uint64_t highest)
	{
	static uint32_t codepoint;
	codepoint = highest ? 1U << highest : 0;
	verif_i_fresh_at(&codepoint, 32, 0, highest == 20 ? 16 : highest == 0 ? 1 : highest);
	size_t length = highest <= 6 ? 1 : highest <= 10 ? 2 : highest <= 15 ? 3 : 4;
	for (size_t room = 0; room <= 5; room++)
		{
		uint8_t *buffer = new uint8_t[room];
		size_t got = unicode::codepoint_to_utf8(buffer, buffer + room, codepoint);
		verif_i_true("a code point is written in the bytes it needs, if there is room", got == (room < length ? 0 : length));
		if (room >= length)
			{
			size_t used = 99;
			uint32_t back = unicode::utf8_to_codepoint(buffer, buffer + room, used);
			verif_i_true("it is read in as many bytes", used == length);
			verif_i_same("it is read as it was written", &back, &codepoint, 1, 4);
			for (size_t less = 0; less < length; less++)
				{
				uint8_t *cut = new uint8_t[less];
				memcpy(cut, buffer, less);
				unicode::utf8_to_codepoint(cut, cut + less, used);
				verif_i_true("a sequence that is cut short is not one", used == 0);
				delete [] cut;
				}
			for (size_t bad = 1; bad < length; bad++)
				for (uint32_t top = 0; top < 4; top++)
					if (top != 2)
						{
						uint8_t keep = buffer[bad];
						buffer[bad] = (keep & 0x3F) | (top << 6);
						unicode::utf8_to_codepoint(buffer, buffer + room, used);
						verif_i_true("a sequence whose later bytes are not continuations is not one", used == 0);
						buffer[bad] = keep;
						}
			}
		delete [] buffer;
		}
	}
