/*
	The command lines of the tools: every switch of the tool's own table, written in every way that it can be.
*/
#include "verif.h"
#include <math.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <map>
#include <tuple>
#include <limits>
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <algorithm>
#include <functional>
#define private public
#include "commandline.h"
#define main tool_main
#include TOOL
#undef main
#undef private
#include "runtime.h"

extern "C" unsigned long long strtoull(const char *from, char **end, int) throw() { unsigned long long x = 0; while (*from >= '0' && *from <= '9') x = x * 10 + (*from++ - '0'); if (end) *end = (char *)from; return x; }
extern "C" unsigned long strtoul(const char *from, char **end, int base) throw() { return strtoull(from, end, base); }
extern "C" long long strtoll(const char *from, char **end, int base) throw() { bool minus = *from == '-'; long long x = strtoull(from + minus, end, base); return minus ? -x : x; }
extern "C" double strtod(const char *from, char **end) throw()
	{
	const char *start = from;
	bool minus = *from == '-';
	double x = 0, scale = 1;
	for (from += minus; *from >= '0' && *from <= '9'; from++)
		x = x * 10 + (*from - '0');
	if (*from == '.')
		for (from++; *from >= '0' && *from <= '9'; from++)
			x += (*from - '0') * (scale /= 10);
	if (end)
		*end = (char *)(from == start + minus ? start : from);
	return minus ? -x : x;
	}
static int number_of_the_last_error;
extern "C" int *__errno_location() throw() { return &number_of_the_last_error; }

using namespace JASS;
static constexpr size_t how_many = std::tuple_size<decltype(TABLE)>::value;

/*
	what each parameter is, as text
*/
struct state { const void *at; std::string text; double number; };
static void look(state &s, bool &x) { s = {&x, "", (double)x}; }
static void look(state &s, std::string &x) { s = {&x, x, 0}; }
template <typename T> static void look(state &s, T &x) { if constexpr (std::is_arithmetic<T>::value) s = {&x, "", (double)x}; else s = {&x, "", 0}; }
template <size_t I = 0> static void look(state *all)
	{
	if constexpr (I < how_many)
		{
		look(all[I], std::get<I>(TABLE).parameter);
		look<I + 1>(all);
		}
	}
template <typename T> static bool is_switch(T &) { return std::is_same<T, bool>::value; }
template <typename T> static bool is_text(T &) { return std::is_same<T, std::string>::value; }
template <typename T> static bool is_real(T &) { return std::is_floating_point<T>::value; }
static std::string shortname, longname;
static bool flag, textual, real;
static unsigned long long room;
template <typename T> static unsigned long long largest(T &) { if constexpr (std::is_integral<T>::value) return std::numeric_limits<T>::max(); else return ~0ULL; }
template <size_t I = 0> static void pick(size_t which)
	{
	if constexpr (I < how_many)
		{
		if (I == which)
			{
			auto &e = std::get<I>(TABLE);
			shortname = e.shortname;
			longname = e.longname;
			flag = is_switch(e.parameter);
			textual = is_text(e.parameter);
			real = is_real(e.parameter);
			room = largest(e.parameter);
			}
		else
			pick<I + 1>(which);
		}
	}

static state before[how_many], after[how_many];
extern "C" void verif_h_switch(uint64_t which, uint64_t use_long, uint64_t joined, uint64_t value, uint64_t follow)
	{
	static const char *texts[] = {"7", "name.ext", "0", "12345", "a b", "_min", "min", "-q", "a=b.c"}, *numbers[] = {"7", "100", "0", "12345", "1", "65536", "42", "4294967303", "9007199254740991"}, *reals[] = {"7", "0.5", "0", "12345", "1.25", "99.5", "100", "0.95", "33.3"};
	if (which >= how_many)
		return;
	pick(which);
	const std::string &name = use_long ? longname : shortname;
	if (name.size() == 0 || (flag && (joined || value)))
		return;
	const char *with = textual ? texts[value] : real ? reals[value] : numbers[value];
	look(before);
	std::vector<const char *> argv = {"tool"};
	std::string all = name + with;
	if (flag)
		argv.push_back(name.c_str());
	else if (joined)
		argv.push_back(all.c_str());
	else
		{
		argv.push_back(name.c_str());
		argv.push_back(with);
		}
	std::string again = shortname;				// the same switch after it changes nothing
	if (follow && flag)
		argv.push_back(again.c_str());
	int argc = argv.size();
	argv.push_back(nullptr);
	std::string error;
	bool ok = commandline::parse(argc, &argv[0], TABLE, error);
	if (!flag && !textual && !real && strtoull(with, nullptr, 0) > room)
		{
		verif_i_true("a number that is too large is refused", !ok);
		return;
		}
	verif_i_true("a switch of the tool is accepted", ok);
	look(after);
	for (size_t k = 0; k < how_many; k++)
		if (after[k].at == before[which].at)
			{
			if (flag)
				verif_i_true("a switch without a value is set", after[k].number == 1);
			else if (textual)
				verif_i_true("a switch has the text it is given", after[k].text == with);
			else
				verif_i_true("a switch has the number it is given", after[k].number == strtod(with, nullptr));
			}
		else
			verif_i_true("no other switch changes", after[k].text == before[k].text && after[k].number == before[k].number);
	}
extern "C" void verif_h_switch_missing(uint64_t which, uint64_t use_long)
	{
	// the value that a switch needs is not there
	if (which >= how_many)
		return;
	pick(which);
	const std::string &name = use_long ? longname : shortname;
	if (name.size() == 0 || flag)
		return;
	look(before);
	const char *argv[] = {"tool", name.c_str(), nullptr};
	std::string error;
	verif_i_true("a switch without the value it needs is refused", !commandline::parse(2, argv, TABLE, error));
	look(after);
	for (size_t k = 0; k < how_many; k++)
		verif_i_true("a switch that is refused changes nothing", after[k].text == before[k].text && after[k].number == before[k].number);
	}
extern "C" void verif_h_switch_unknown(uint64_t which)
	{
	static const char *unknown[] = {"", "-", "--", "x", "file.txt", "-@", "--@", "@-k"};
	look(before);
	const char *argv[] = {"tool", unknown[which], nullptr};
	std::string error;
	verif_i_true("what is not a switch is refused", !commandline::parse(2, argv, TABLE, error));
	look(after);
	for (size_t k = 0; k < how_many; k++)
		verif_i_true("a switch that is refused changes nothing", after[k].text == before[k].text && after[k].number == before[k].number);
	}
extern "C" bool verif_same_type(const void *a, const void *b) { return a == b; }
