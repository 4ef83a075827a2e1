/*
	The tables that the build generates, as data: ASCII is complete, of Unicode only the code points the harnesses use are there.
*/
#pragma once
#include "ascii.h"
#include "unicode.h"
using namespace JASS;

/*
	the Unicode tables
*/
static constexpr size_t table_bytes = 0x10500 / 8;		// as far as the code points used go
unsigned char JASS_unicode_isalpha_data[table_bytes];
unsigned char JASS_unicode_isalnum_data[table_bytes];
unsigned char JASS_unicode_isupper_data[table_bytes];
unsigned char JASS_unicode_islower_data[table_bytes];
unsigned char JASS_unicode_iscntrl_data[table_bytes];
unsigned char JASS_unicode_isdigit_data[table_bytes];
unsigned char JASS_unicode_isgraph_data[table_bytes];
unsigned char JASS_unicode_ispunct_data[table_bytes];
unsigned char JASS_unicode_isspace_data[table_bytes];
unsigned char JASS_unicode_isuspace_data[table_bytes];
unsigned char JASS_unicode_isxdigit_data[table_bytes];
unsigned char JASS_unicode_ismark_data[table_bytes];
unsigned char JASS_unicode_issymbol_data[table_bytes];
unsigned char JASS_unicode_isxmlnamestartchar_data[table_bytes];
unsigned char JASS_unicode_isxmlnamechar_data[table_bytes];
const uint32_t *JASS_normalisation[0x10500];

static const uint32_t nothing[] = {0};
static uint32_t folded[128][2];
static void set(unsigned char *table, uint32_t codepoint) { table[codepoint >> 3] |= 1 << (codepoint & 7); }
static void letter(uint32_t c) { set(JASS_unicode_isalpha_data, c); set(JASS_unicode_isalnum_data, c); set(JASS_unicode_isxmlnamestartchar_data, c); set(JASS_unicode_isxmlnamechar_data, c); }
static void number(uint32_t c) { set(JASS_unicode_isdigit_data, c); set(JASS_unicode_isalnum_data, c); }

/*
	the ASCII tables, which the build generates from the C library's
*/
static constexpr uint16_t ascii_class(int c)
	{
	bool u = c >= 'A' && c <= 'Z', l = c >= 'a' && c <= 'z', d = c >= '0' && c <= '9';
	bool control = c < 32 || c == 127, space = c == 32 || (c >= 9 && c <= 13);
	if (c > 127) return 0;
	return (u ? ascii::UPPER : 0) | (l ? ascii::LOWER : 0) | (d ? ascii::DIGIT : 0) | (control ? ascii::CONTROL : 0) | (space ? ascii::SPACE : 0)
		| (!u && !l && !d && !control && c != 32 ? ascii::PUNC : 0)
		| ((u || l) && ((c | 32) == 'a' || (c | 32) == 'c' || (c | 32) == 'g' || (c | 32) == 't') ? ascii::DNA : 0)
		| ((u || l) && ((c | 32) == 'a' || (c | 32) == 'e' || (c | 32) == 'i' || (c | 32) == 'o' || (c | 32) == 'u') ? ascii::VOWEL | ascii::VOWELY : 0) | ((c | 32) == 'y' && (u || l) ? ascii::VOWELY : 0);
	}
static constexpr uint8_t ascii_lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static constexpr uint8_t ascii_upper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
#define FOUR(f, c) f(c), f(c + 1), f(c + 2), f(c + 3)
#define SIXTEEN(f, c) FOUR(f, c), FOUR(f, c + 4), FOUR(f, c + 8), FOUR(f, c + 12)
#define ALL(f) SIXTEEN(f, 0), SIXTEEN(f, 16), SIXTEEN(f, 32), SIXTEEN(f, 48), SIXTEEN(f, 64), SIXTEEN(f, 80), SIXTEEN(f, 96), SIXTEEN(f, 112), \
	SIXTEEN(f, 128), SIXTEEN(f, 144), SIXTEEN(f, 160), SIXTEEN(f, 176), SIXTEEN(f, 192), SIXTEEN(f, 208), SIXTEEN(f, 224), SIXTEEN(f, 240)
const uint16_t ascii::ctype[] = {ALL(ascii_class)};
const uint8_t ascii::lower_list[] = {ALL(ascii_lower)};
const uint8_t ascii::upper_list[] = {ALL(ascii_upper)};

static void ascii_code_points(void)
	{
	for (uint32_t c = 0; c < 128; c++)
		{
		bool lower = c >= 'a' && c <= 'z', upper = c >= 'A' && c <= 'Z';
		if (lower || upper) letter(c);
		if (c >= '0' && c <= '9') { number(c); set(JASS_unicode_isxmlnamechar_data, c); }
		if (c == ' ' || (c >= 9 && c <= 13)) { set(JASS_unicode_isspace_data, c); set(JASS_unicode_isuspace_data, c); }
		if (c == ':' || c == '_') { set(JASS_unicode_isxmlnamestartchar_data, c); set(JASS_unicode_isxmlnamechar_data, c); }
		if (c == '-' || c == '.') set(JASS_unicode_isxmlnamechar_data, c);
		folded[c][0] = upper ? c + 32 : c;
		folded[c][1] = 0;
		JASS_normalisation[c] = folded[c];
		}
	static const uint32_t replacement[] = {unicode::replacement_character, 0};
	JASS_normalisation[unicode::replacement_character] = replacement;
	}
