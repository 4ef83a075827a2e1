/*
	TREC topic files: each topic is one query, with its number and the words of the fields that are wanted.
*/
#include "verif.h"
#define __NO_CTYPE
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <map>
#include <array>
#include <tuple>
#include <atomic>
#include <string>
#include <thread>
#include <vector>
#include <limits>
#include <memory>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#define private public
#define protected public
#include "slice.h"
#include "ascii.h"
#include "parser.h"
#include "unicode.h"
#include "channel_trec.h"
#include "channel_buffer.h"
#include "unicode_tables.h"
#undef private
#undef protected
#define MANY_STREAMS
#include "runtime.h"
using namespace JASS;

extern "C" long strtol(const char *from, char **end, int) throw() { while (*from == ' ' || (*from >= 9 && *from <= 13)) from++; bool minus = *from == '-'; long x = 0; for (from += minus; *from >= '0' && *from <= '9'; from++) x = x * 10 + (*from - '0'); if (end) *end = (char *)from; return minus ? -x : x; }
extern "C" long long strtoll(const char *from, char **end, int base) throw() { return strtol(from, end, base); }
extern "C" unsigned long strtoul(const char *from, char **end, int base) throw() { return strtol(from, end, base); }
extern "C" unsigned long long strtoull(const char *from, char **end, int base) throw() { return strtol(from, end, base); }
extern "C" long atol(const char *from) throw() { return strtol(from, nullptr, 10); }
extern "C" long long atoll(const char *from) throw() { return strtol(from, nullptr, 10); }
extern "C" int atoi(const char *from) throw() { return strtol(from, nullptr, 10); }
extern "C" int isdigit(int c) throw() { return c >= '0' && c <= '9'; }
extern "C" int isalnum(int c) throw() { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
extern "C" void verif_exit(int code) { verif_i_true("reading topics does not end the tool", false); throw code; }

static const char *texts[] =
	{"literacy rates Africa", "term limits", "U.S. 2001 tax-1914", "a", "", "Gasoline   (tax)", "x1234567 7654321", "90210", "the wanted 10 of 200000", "\"quoted\" 'phrase' & more"};
static const char *as_words[] =
	{"literacy rates africa ", "term limits ", "u s 2001 tax 1914 ", "a ", "", "gasoline tax ", "x 1234567 7654321 ", "90210 ", "the wanted 10 of 200000 ", "quoted phrase more "};
static const uint32_t numbers[] = {5, 51, 698, 1, 2001, 1048585, 10, 0, 99, 12345678};

extern "C" void verif_h_topics(uint64_t layout, uint64_t topics, uint64_t seed, uint64_t tags, uint64_t ending)
	{
	// layout: 0 TREC, a line each; 1 TREC, text on its own line; 2 ClueWeb; 3 a topic per line, TREC; 4 the same, ClueWeb; 5 all on one line, TREC; 6 the same, ClueWeb
	ascii_code_points();
	static const char *tagsets[] = {"tq", "t", "d", "td", "n", "tdnq", "q"};
	std::string set = tagsets[tags], file, newline = ending == 1 ? "\r\n" : "\n";
	std::vector<std::string> wanted;
	bool web = layout == 2 || layout == 4 || layout == 6, close = web || seed % 2;
	std::string gap = layout >= 3 ? " " : newline;
	if (seed % 3 == 0)
		file += web ? "<topics>" + gap : gap;
	for (size_t t = 0; t < topics; t++)
		{
		uint64_t r = seed * 31 + t * 7;
		uint32_t n = numbers[(seed + t) % 10];
		size_t title = (r + 1) % 10, desc = (r / 3 + 2) % 10, narr = (r / 5 + 3) % 10;
		std::string query = std::to_string(n) + " ";
		if (web)
			{
			file += "<topic number=\"" + std::to_string(n) + "\" type=\"ambiguous\">" + gap;
			file += std::string("<query>") + texts[title] + "</query>" + gap;
			file += std::string("<description>") + texts[desc] + (r % 2 ? gap : " ") + "</description>" + gap;
			file += std::string("<subtopic number=\"1\" type=\"inf\">") + texts[narr] + "</subtopic>" + gap;
			file += "</topic>" + (layout == 6 ? " " : newline);
			if (set.find('q') != std::string::npos)
				query += as_words[title];
			if (set.find('d') != std::string::npos)
				query += as_words[desc];
			}
		else
			{
			std::string after = layout == 1 ? gap : " ";
			file += "<top>" + gap + "<num> Number: " + (r % 2 ? "0" : "") + std::to_string(n) + gap;
			file += "<title>" + after + texts[title] + gap + (close ? "</title>" + gap : "");
			file += "<desc> Description:" + after + texts[desc] + gap + (r % 2 ? gap : "");
			file += "<narr>" + after + texts[narr] + gap;
			file += "</top>" + (layout == 5 ? " " : newline + (r % 3 ? newline : ""));
			if (set.find('t') != std::string::npos)
				query += as_words[title];
			if (set.find('d') != std::string::npos)
				query += std::string("description ") + as_words[desc];
			if (set.find('n') != std::string::npos)
				query += as_words[narr];
			}
		wanted.push_back(query);
		}
	if (web && seed % 3 == 0)
		file += "</topics>" + newline;
	if (ending == 2)
		while (file.size() != 0 && file[file.size() - 1] == '\n')
			file.resize(file.size() - 1);
	char *data = new char[file.size() + 1];
	memcpy(data, file.c_str(), file.size() + 1);
	std::shared_ptr<char> shared(data, [](char *pointer) { delete [] pointer; });
	std::unique_ptr<channel> source(new channel_buffer(shared));
	channel_trec reader(source, set);
	std::string got;
	for (size_t t = 0; t < topics; t++)
		{
		got = "stale";
		reader.gets(got);
		verif_i_true("a topic is one query: its number and the words of the fields that are wanted", got == wanted[t]);
		}
	for (size_t more = 0; more < 2; more++)
		{
		got = "stale";
		reader.gets(got);
		verif_i_true("after the last topic there is nothing", got.size() == 0);
		}
	}
