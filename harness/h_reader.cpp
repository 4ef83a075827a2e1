/*
	Reading documents out of a collection.  The collection is a sequence of pieces (tags, broken tags, text whose letters are free); whatever the size of
	the buffer and of the blocks the source delivers, each document must come out once, whole.
*/
#include "verif.h"
#include <string.h>
#include <stdio.h>
#include <string>
#include <memory>
#include <vector>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#define private public
#define protected public
#include "slice.h"
#include "instream.h"
#include "document.h"
#include "instream_memory.h"
#include "instream_document_trec.h"
#include "instream_document_html.h"
#include "instream_document_fasta.h"
#include "instream_document_warc.h"
#include "instream_document_unicoil_json.h"
#include "unicode_tables.h"
#undef private
#undef protected
#include "runtime.h"
using namespace JASS;

extern "C" int isspace(int c) throw() { return c == ' ' || (c >= 9 && c <= 13); }
extern "C" long long atoll(const char *at) throw()
	{
	long long number = 0;
	while (isspace(*at))
		at++;
	for (; *at >= '0' && *at <= '9'; at++)
		number = number * 10 + (*at - '0');
	return number;
	}
static uint64_t scramble(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }

static constexpr size_t most = 4000;
static uint8_t text[most];
static size_t n;
static void add(const char *what) { while (*what) text[n++] = *what++; }
static void letters(size_t count)
	{
	for (size_t k = 0; k < count; k++)
		{
		text[n] = 0x50;
		verif_i_fresh_at(&text[n], 8, 0, 4);			// any of sixteen, none of which is in a tag
		n++;
		}
	}

/*
	delivers the text in blocks of no more than so many bytes
*/
class blocks : public instream
	{
	public:
		size_t at, most;
		blocks(size_t most) : at(0), most(most) {}
		virtual void read(document &into)
			{
			size_t bytes = into.contents.size() < most ? into.contents.size() : most;
			if (bytes > n - at)
				bytes = n - at;
			memcpy(into.contents.address(), text + at, bytes);
			at += bytes;
			into.contents = slice(into.contents.address(), bytes);
			}
	};

static bool is(size_t at, const char *what) { size_t k = 0; for (; what[k]; k++) if (at + k >= n || text[at + k] != what[k]) return false; return true; }
static size_t find(size_t from, size_t end, const char *what) { size_t l = strlen(what); for (; from + l <= end; from++) if (is(from, what)) return from; return end; }
static bool space(uint8_t c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }

static void check(document &object, size_t start, size_t end, size_t key, size_t key_end, const char *no_key)
	{
	verif_i_true("a document is all of the document", object.contents.size() == end - start);
	if (object.contents.size() == end - start)
		verif_i_same("a document is what the collection has", object.contents.address(), text + start, end - start, 1);
	size_t length = no_key ? strlen(no_key) : key_end - key;
	verif_i_true("a primary key is all of the key", object.primary_key.size() == length);
	if (object.primary_key.size() == length)
		verif_i_same("a primary key is what the document has", object.primary_key.address(), no_key ? (uint8_t *)no_key : text + key, length, 1);
	}

/*
	TREC (kind 0) and HTML (kind 1)
*/
static void read_tagged(uint64_t kind, size_t buffer_size, size_t block)
	{
	std::shared_ptr<instream> source(new blocks(block));
	instream_document_trec *reader;
	const char *start_tag = kind ? "<html" : "<DOC>", *end_tag = kind ? "</html>" : "</DOC>", *key_tag = kind ? "<title>" : "<DOCNO>", *key_end_tag = kind ? "</title>" : "</DOCNO>";
	if (kind)
		reader = new instream_document_html(source);
	else
		reader = new instream_document_trec(source, buffer_size, "DOC", "DOCNO");
	if (kind)
		{
		// as if it had been made with that size of buffer
		delete [] reader->buffer;
		reader->buffer_end = reader->buffer = new uint8_t[buffer_size + 1];
		reader->buffer_size = buffer_size;
		}
	document object;
	size_t at = 0;
	for (;;)
		{
		object.rewind();
		reader->read(object);
		size_t start = find(at, n, start_tag), end = start == n ? n : find(start, n, end_tag);
		if (end == n)
			break;
		end += strlen(end_tag);
		at = end;
		size_t key = find(start, end, key_tag), key_end = end;
		if (key != end)
			{
			key += strlen(key_tag);
			key_end = find(key, end, key_end_tag);
			}
		if (key_end == end)
			check(object, start, end, 0, 0, "Unknown");
		else
			{
			while (key < key_end && space(text[key]))
				key++;
			while (key_end > key && space(text[key_end - 1]))
				key_end--;
			check(object, start, end, key, key_end, nullptr);
			}
		}
	verif_i_true("after the last document there are no more", object.isempty());
	for (size_t again = 0; again < 2; again++)
		{
		reader->read(object);
		verif_i_true("nor when asked again", object.isempty());
		}
	delete reader;
	}

static const char *trec_pieces[] = {"<DOC>", "</DOC>", "<DOCNO>", "</DOCNO>", " ", "<", "<DO", "</DO", "\n", ">", "<DOCS>"};
static const char *html_pieces[] = {"<html", "</html>", "<title>", "</title>", " ", "<", "<ht", "</ht", "\n", ">", "</titl"};

extern "C" void verif_h_tagged(uint64_t kind, uint64_t count, uint64_t seed, uint64_t buffer_size, uint64_t block)
	{
	const char **pieces = kind ? html_pieces : trec_pieces;
	n = 0;
	for (size_t d = 0; d < count; d++)
		{
		uint64_t r = scramble(seed * 131 + d);
		if (r % 3 == 0)
			{ add(pieces[4 + (r >> 4) % 7]); letters((r >> 8) % 40); }			// between documents
		add(pieces[0]);
		if (r >> 16 & 1)
			letters((r >> 20) % 20);
		if (kind)
			add(">");
		if ((r >> 24) % 5)
			{
			add(pieces[2]);
			if (r >> 28 & 1) add(" \n\t");
			letters((r >> 32) % 9);
			if (r >> 29 & 1) add("  ");
			if ((r >> 36) % 7)
				add(pieces[3]);
			}
		for (size_t p = 0; p < (r >> 40) % 6; p++)
			{
			add(pieces[4 + (r >> (44 + p)) % 7]);
			letters((r >> (48 + p)) % 12);
			}
		if (d + 1 < count || seed % 4)
			add(pieces[1]);
		}
	if (seed % 3 == 0)
		add(pieces[5 + seed % 3]);
	read_tagged(kind, buffer_size, block);
	}

/*
	every sequence of pieces
*/
extern "C" void verif_h_tag_pieces(uint64_t first, uint64_t second, uint64_t third, uint64_t buffer_size, uint64_t block)
	{
	for (size_t a = 0; a < 6; a++)
		for (size_t b = 0; b < 6; b++)
			{
			n = 0;
			for (size_t p : {(size_t)first, (size_t)second, (size_t)third, a, b})
				add(trec_pieces[p]);
			add("</DOC>");
			read_tagged(0, buffer_size, block);
			}
	}

extern "C" void verif_h_fasta(uint64_t count, uint64_t seed, uint64_t buffer_size, uint64_t block)
	{
	n = 0;
	if (seed % 3 == 0)
		letters(seed % 17);
	for (size_t d = 0; d < count; d++)
		{
		uint64_t r = scramble(seed * 131 + d);
		add(">");
		letters(r % 9);
		if (r >> 4 & 1)
			{ add(" >"); letters((r >> 8) % 5); }
		if (r >> 12 & 1)
			add(" \t");
		if ((r >> 13) % 5 == 0 && d + 1 == count)
			break;
		for (size_t line = 0; line < (r >> 16) % 4; line++)
			{
			add("\n");
			letters((r >> (20 + line * 4)) % 30);
			if (r >> (40 + line) & 1)
				add(" >");
			}
		if (d + 1 < count || seed & 1)
			add("\n");
		}
	std::shared_ptr<instream> source(new blocks(block));
	instream_document_fasta *reader = new instream_document_fasta(source, buffer_size);
	document object;
	size_t at = 0;
	for (;;)
		{
		object.rewind();
		reader->read(object);
		size_t start = find(at, n, ">");
		if (start == n)
			break;
		size_t end = find(start + 1, n, "\n>");
		if (end != n)
			end++;
		at = end;
		size_t key_end = find(start, end, "\n");
		while (key_end > start && space(text[key_end - 1]))
			key_end--;
		check(object, start, end, start, key_end, nullptr);
		}
	verif_i_true("after the last document there are no more", object.isempty());
	reader->read(object);
	verif_i_true("nor when asked again", object.isempty());
	delete reader;
	}

/*
	WARC: a record starts with lines of header, of any length; the last of them says how long the record is
*/
extern "C" void verif_h_warc(uint64_t count, uint64_t seed, uint64_t line_size, uint64_t block, uint64_t crlf)
	{
	static size_t key[20], key_end[20], start[20], length[20];
	size_t documents = 0;
	const char *eol = crlf ? "\r\n" : "\n";
	n = 0;
	for (size_t d = 0; d < count; d++)
		{
		uint64_t r = scramble(seed * 131 + d);
		add("WARC/1.0"); add(eol);
		bool indexed = r % 4 != 0;
		if (r >> 4 & 1)
			{ add("WARC-"); letters((r >> 8) % 7); add(": "); letters((r >> 12) % 4); add(eol); }
		if (seed % 2)
			{ letters(line_size - 5 + (r >> 16) % 8); add(eol); }							// about as long as what a line is read into
		if (indexed)
			{
			add("WARC-TREC-ID:");
			if (r >> 20 & 1)
				add(" ");
			key[documents] = n;
			letters(1 + (r >> 24) % 12);
			key_end[documents] = n;
			add(eol);
			}
		if (r >> 28 & 1)
			{ letters(seed % 2 ? line_size - 5 + (r >> 32) % 8 : (r >> 32) % 20); add(eol); }
		size_t bytes = (r >> 40) % 50;
		if (!indexed || bytes == 0)
			bytes += 3;
		add("Content-Length: ");
		if (bytes >= 10)
			text[n++] = '0' + bytes / 10;
		text[n++] = '0' + bytes % 10;
		add(eol);
		start[documents] = n;
		length[documents] = bytes;
		add(eol);
		letters(bytes - strlen(eol));
		add(eol); add(eol);
		if (indexed)
			documents++;
		}
	if (seed % 3 == 0 && documents > 0)
		{
		n = start[documents - 1] + length[documents - 1] / 2;		// the collection is cut short
		length[documents - 1] /= 2;
		}
	std::shared_ptr<instream> source(new blocks(block));
	auto *reader = new instream_document_warc(source);
	std::string line(line_size, '\0');
	reader->buffer.swap(line);
	document object;
	for (size_t d = 0; d < documents; d++)
		{
		if (length[d] == 0)
			break;
		object.rewind();
		reader->read(object);
		check(object, start[d], start[d] + length[d], key[d], key_end[d], nullptr);
		}
	for (size_t again = 0; again < 2; again++)
		{
		reader->read(object);
		verif_i_true("after the last document there are no more", object.isempty());
		}
	}

/*
	the content of a record is after the blank line that ends its header
*/
extern "C" void verif_h_warc_content(uint64_t bytes)
	{
	n = 0;
	add("WARC/1.0\nWARC-TREC-ID: A-1\nContent-Length: ");
	text[n++] = '0' + bytes / 10;
	text[n++] = '0' + bytes % 10;
	add("\n\n");
	size_t start = n;
	letters(bytes);
	add("\n\n");
	std::shared_ptr<instream> source(new blocks(7));
	instream_document_warc reader(source);
	document object;
	reader.read(object);
	verif_i_true("a document starts where the content of its record does", object.contents.size() != 0 && object.contents[0] != '\n');
	(void)start;
	}

/*
	uniCOIL: a document a line
*/
extern "C" void verif_resize(std::string *s, size_t size)
	{
	if (size == 1024 * 1024)
		size = 64;													// the size of the buffer at the start
	std::string larger(size, '\0');
	for (size_t k = 0; k < size && k < s->size(); k++)
		larger[k] = (*s)[k];
	s->swap(larger);
	}
extern "C" const char *verif_strchr(const char *at, int what) { for (; *at; at++) if (*at == (char)what) return at; return what == 0 ? at : nullptr; }
extern "C" void verif_h_unicoil(uint64_t count, uint64_t seed, uint64_t size, uint64_t block)
	{
	static size_t key[20], key_end[20], start[20], end[20];
	n = 0;
	for (size_t d = 0; d < count; d++)
		{
		uint64_t r = scramble(seed * 131 + d);
		if (r & 1)
			add("\n");
		add("{\"id\": \"");
		key[d] = n;
		letters(1 + (r >> 4) % 7);
		key_end[d] = n;
		add("\", \"contents\": \"");
		letters((r >> 8) % (seed % 2 ? 70 : 5));
		add("\", \"vector\": {");
		start[d] = n;
		for (size_t w = 0; w <= (r >> 16) % 5; w++)
			{
			add(w ? ", \"" : "\"");
			letters(1 + (r >> (20 + w * 3)) % 8);
			add("\": ");
			text[n++] = '1' + (r >> (40 + w)) % 9;
			}
		end[d] = n;
		add("}}");
		if (d + 1 < count || seed % 3)
			add("\n");
		}
	auto *from = new blocks(0);
	std::shared_ptr<instream> source(from);
	auto *reader = new instream_document_unicoil_json(source);
	from->most = block;
	reader->buffer_size = size;
	std::string memory(size, '\0');
	reader->buffer.swap(memory);
	reader->buffer_start = &reader->buffer[0];
	reader->buffer_end = reader->buffer_start + source->fetch(&reader->buffer[0], size);
	document object;
	for (size_t d = 0; d < count; d++)
		{
		object.rewind();
		reader->read(object);
		// the last one may have the end of its line too
		if (d + 1 == count && object.contents.size() == end[d] - start[d] + 2)
			end[d] += 2;
		check(object, start[d], end[d], key[d], key_end[d], nullptr);
		}
	for (size_t again = 0; again < 2; again++)
		{
		reader->read(object);
		verif_i_true("after the last document there are no more", object.isempty());
		}
	}
