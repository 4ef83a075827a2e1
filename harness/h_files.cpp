/*
	Files: what is written, read, sought and mapped, when all goes well and when the disk is full, cannot be read, or refuses.
*/
#define MANY_STREAMS
#include "h_search.cpp"
#include "instream_file_star.h"

enum { most = 600 };
static uint8_t bytes[most];				// free
static const size_t sizes[] = {1, 0, 7, 3, 16, 2, 33, 5, 64, 4, 1, 100, 8, 31, 12, 0, 17};

static bool flushed(file &f)
	{
	try
		{
		f.flush();
		}
	catch (...)
		{
		return false;
		}
	return true;
	}
static void check_disk(const image *f, size_t length)
	{
	verif_i_true("nothing but what was written is in the file", f->length <= length);
	if (f->length <= length)
		verif_i_same("what was written is in the file", f->data, bytes, f->length, 1);
	}

extern "C" void verif_h_write(uint64_t buffer, uint64_t seed, uint64_t pieces, uint64_t space, uint64_t late)
	{
	for (auto &byte : bytes)
		any(byte);
	image *on_disk = find_file("f", true);
	size_t total = 0;
	bool told = false;
		{
		file f("f", "w+b");
		if (buffer != 0)
			verif_i_true("a buffer can be given", f.setvbuf(buffer) == 1);
		room = space;
		told_late = late;
		try
			{
			for (size_t k = 0; k < pieces; k++)
				{
				size_t size = sizes[(k * (seed | 1) + seed / 3) % 17];
				verif_i_true("writing says how much was written", f.write(bytes + total, size) == size);
				total += size;
				verif_i_true("the position is where the next byte goes", f.tell() == total);
				}
			f.flush();
			}
		catch (...)
			{
			told = true;
			}
		if (!lost)
			{
			verif_i_true("a disk with enough room is not full", !told);
			verif_i_true("after flushing all is on the disk", on_disk->length == total);
			}
		}
	verif_i_true("it is told that the disk is full", told == lost);
	verif_i_true("the file is closed", !on_disk->open);
	if (!lost)
		verif_i_true("all is on the disk", on_disk->length == total);
	check_disk(on_disk, most);
	}

extern "C" void verif_h_seek(uint64_t buffer, uint64_t seed, uint64_t steps)
	{
	// writing, seeking and reading one file
	for (auto &byte : bytes)
		any(byte);
	image *on_disk = find_file("f", true);
	uint8_t *expect = new uint8_t[4 * most], *got = new uint8_t[4 * most];
	size_t at = 0, length = 0, from = 0;
	file f("f", "w+b");
	f.setvbuf(buffer);
	bool wrote = false;
	for (size_t step = 0; step < steps; step++)
		{
		uint64_t r = scramble(seed * 977 + step);
		size_t size = sizes[(r >> 8) % 17];
		switch (step == 0 ? 0 : r % 4)
			{
			case 0:
			case 1:
				if (!wrote)
					f.seek(at);				// between reading and writing
				wrote = true;
				if (from + size > most)
					from = 0;
				verif_i_true("writing says how much was written", f.write(bytes + from, size) == size);
				for (size_t k = 0; k < size; k++)
					expect[at++] = bytes[from++];
				if (at > length)
					length = at;
				break;
			case 2:
				f.seek(at = (r >> 16) % (length + 1));
				break;
			default:
				{
				if (wrote)
					f.seek(at);
				wrote = false;
				size_t there = at + size > length ? length - at : size;
				verif_i_true("reading gives what there is", f.read(got, size) == there);
				verif_i_same("reading gives what was written there", got, expect + at, there, 1);
				at += there;
				break;
				}
			}
		verif_i_true("the position is where the next byte goes", f.tell() == at);
		verif_i_true("the position is kept when asking for the size", f.size() <= length && f.tell() == at);
		}
	verif_i_true("what was written can be flushed", flushed(f));
	verif_i_true("the file is as long as what was written", f.size() == length && on_disk->length == length);
	verif_i_same("the file holds what was written", on_disk->data, expect, length, 1);
	}

extern "C" void verif_h_whole(uint64_t length, uint64_t fault)
	{
	// fault: 0 none; 1 the disk is full; 2 that is told late; 3 closing fails; 4 no file; 5 no status; 6 nothing can be read; 7 some can; 8 it cannot be mapped
	for (auto &byte : bytes)
		any(byte);
	image *on_disk = find_file("f", true);
	std::string into((const char *)bytes, length);
	room = fault == 1 || fault == 2 ? length / 2 : 1000;
	told_late = fault == 2;
	refuse_close = fault == 3;
	refuse_open = fault == 4;
	bool fails = fault >= 1 && fault <= 4 && !((fault == 1 || fault == 2) && length == 0);
	verif_i_true("writing a file says whether it is there", file::write_entire_file("f", into) == !fails);
	refuse_close = false;
	if (!fails)
		{
		verif_i_true("all is on the disk", on_disk->length == length);
		verif_i_true("the file is closed", !on_disk->open);
		check_disk(on_disk, length);
		}
	if (fails && fault != 4)
		return;
	refuse_stat = fault == 5;
	readable = fault == 6 ? 0 : fault == 7 ? length / 2 : 1000;
	refuse_map = fault == 8;
	std::string back("what was there before is longer than the file");
	size_t got = file::read_entire_file("f", back);
	fails = fault >= 4 && fault <= 7;
	verif_i_true("reading a file gives its size, or 0 if it cannot be read", got == (fails ? 0 : length));
	verif_i_true("nothing else is in the string", back.size() == got);
	if (back.size() == got)
		verif_i_same("reading a file gives its contents", back.data(), bytes, got, 1);
	verif_i_true("the file is closed", !on_disk->open);
	file::file_read_only mapped;
	const uint8_t *memory = bytes;
	got = file::read_entire_file("f", mapped);
	fails = fault == 4 || fault == 5 || fault == 8;
	verif_i_true("mapping a file gives its size, or 0 if it cannot be mapped", got == (fails ? 0 : length));
	verif_i_true("the size is the size of the file", mapped.read_entire_file(memory) == got);
	if (got != 0)
		verif_i_same("mapping a file gives its contents", memory, bytes, got, 1);
	}

extern "C" void verif_h_stream(uint64_t length, uint64_t seed, uint64_t gives, uint64_t terminal_one)
	{
	// reading a file, or the terminal, in pieces
	for (auto &byte : bytes)
		any(byte);
	image *on_disk = terminal_one ? &terminal[0] : find_file("f", true);
	if (terminal_one)
		{
		on_disk->data = new uint8_t[most];
		on_disk->open = true;
		}
	memcpy(on_disk->data, bytes, on_disk->length = length);
	instream *in = terminal_one ? new instream_file_star(stdin) : new instream_file(std::string("f"));
	readable = gives;
	size_t all = gives < length ? gives : length, at = 0;
	uint8_t *into = new uint8_t[most];
	for (size_t k = 0; k < 60; k++)
		{
		size_t size = sizes[(k * (seed | 1) + seed / 3) % 17];
		if (size == 0)
			continue;
		size_t got = in->fetch(into, size);
		verif_i_true("reading gives all of what was asked for that is there", got == (at + size > all ? all - at : size));
		if (at + got > all)
			return;
		verif_i_same("reading gives what is in the file", into, bytes + at, got, 1);
		at += got;
		}
	verif_i_true("all is read", at == all);
	delete in;
	verif_i_true("the file is closed, but the terminal is not", on_disk->open == (terminal_one != 0));
	}

extern "C" void verif_h_full(uint64_t version, uint64_t documents, uint64_t terms, uint64_t seed, uint64_t space, uint64_t late, uint64_t refuse)
	{
	// an index on a disk that is full at some point
	ascii_code_points();
	room = space;
	told_late = late;
	refuse_open = refuse;
	bool told = false;
	try
		{
		make_index(version, 's', documents, terms, seed, false, true);
		}
	catch (...)
		{
		told = true;
		}
	verif_i_true("it is told that an index could not be written in full", told == (lost || refuse));
	}
