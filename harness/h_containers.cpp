/*
	What several threads may use at once: memory from a pool, the array that grows, the tree and the hash table.
	Each thread does its own operations; the others come in wherever the harness is told to let them in.
*/
#include "verif.h"
#include <string.h>
#include <stdio.h>
#include <string>
#include <atomic>
#include <memory>
#include <thread>
#include <sstream>
#include <iostream>
#include <algorithm>
#define private public
#define protected public
#include "slice.h"
#include "allocator_pool.h"
#include "allocator_memory.h"
#include "dynamic_array.h"
#include "binary_tree.h"
#include "hash_table.h"
#undef private
#undef protected
#include "runtime.h"
using namespace JASS;

static uint64_t scramble(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }

/*
	Threads: each has so many operations to do.  The first starts; at the atomic operation it was told to stop at, the next one does all of its own (and
	may itself be stopped by the one after); at the second one it was told to stop at, what remains of the others.
*/
static constexpr size_t most_threads = 4;
static size_t threads, operations, done[most_threads];
static uint64_t stop_next;
static void (*operation)(size_t thread, size_t which);
static size_t running;
static bool busy[most_threads];

static void work(size_t thread, size_t upto)
	{
	size_t before = running;
	if (busy[thread])
		return;
	busy[thread] = true;
	running = thread;
	verif_i_thread(1, thread + 1);
	while (done[thread] < upto)
		{
		size_t which = done[thread]++;
		operation(thread, which);
		}
	running = before;
	busy[thread] = false;
	verif_i_thread(1, before + 1);
	}

extern "C" void verif_preempted()
	{
	uint64_t stop = stop_next;
	stop_next = 0;
	verif_i_thread(3, stop);			// the others may be stopped too, and then this one once more
	for (size_t other = 1; other < threads; other++)
		if (other != running)
			{
			// half of what it has to do, if there is another time that it can come in
			size_t upto = stop ? (done[other] + operations + 1) / 2 : operations;
			work(other, upto);
			}
	}

static void run_threads(size_t how_many, size_t each, uint64_t stop, uint64_t stop_again, void (*what)(size_t thread, size_t which))
	{
	threads = how_many;
	operations = each;
	operation = what;
	stop_next = stop_again;
	for (size_t t = 0; t < threads; t++)
		done[t] = 0;
	verif_i_thread(4, 0);
	for (size_t t = 0; t < threads; t++)
		verif_i_thread(0, t + 1);
	verif_i_thread(3, stop);
	for (size_t t = 0; t < threads; t++)
		work(t, operations);
	verif_i_thread(3, 0);
	verif_i_thread(1, 0);
	for (size_t t = 0; t < threads; t++)
		verif_i_thread(2, t + 1);
	}

/*
	memory
*/
static allocator *memory;
static uint64_t salt;
struct piece { uint8_t *at; size_t size, alignment; uint8_t value; };
static piece pieces[most_threads][20];
static void take(size_t thread, size_t which)
	{
	static const size_t alignments[] = {1, 8, 1, 16, 64, 1, 32, 128, 1, 3};
	uint64_t r = scramble(salt * 1000 + thread * 100 + which);
	auto &p = pieces[thread][which];
	p.size = r % 5 == 0 ? (r >> 8) % 90 : (r >> 8) % 24;
	p.alignment = alignments[(r >> 20) % 10];
	p.value = 1 + thread * 20 + which;
	p.at = (uint8_t *)memory->malloc(p.size, p.alignment);
	for (size_t k = 0; k < p.size; k++)
		p.at[k] = p.value;
	}

extern "C" void verif_h_pool(uint64_t how_many, uint64_t each, uint64_t seed, uint64_t block, uint64_t stop, uint64_t stop_again)
	{
	memory = new allocator_pool(block);
	salt = seed;
	for (size_t round = 0; round < 2; round++)
		{
		verif_i_true("memory that was never asked for is not used", memory->size() == 0 && memory->capacity() == 0);
		run_threads(how_many, each, stop, stop_again, take);
		size_t total = 0;
		for (size_t t = 0; t < how_many; t++)
			for (size_t w = 0; w < each; w++)
				{
				auto &p = pieces[t][w];
				total += p.size;
				verif_i_true("memory is aligned as it was asked for", (uintptr_t)p.at % p.alignment == 0);
				bool kept = true;
				for (size_t k = 0; k < p.size; k++)
					kept &= p.at[k] == p.value;
				verif_i_true("what is put into memory stays until it is given back", kept);
				}
		verif_i_true("the size is what was asked for", memory->size() == total);
		verif_i_true("there is at least as much memory as was asked for", memory->capacity() >= total);
		memory->rewind();
		}
	delete memory;
	}

/*
	the array that grows
*/
static dynamic_array<uint32_t> *array;
static void append(size_t thread, size_t which) { array->push_back(thread * 1000 + which); }

extern "C" void verif_h_array(uint64_t how_many, uint64_t each, uint64_t initial, uint64_t growth, uint64_t stop, uint64_t stop_again)
	{
	static uint32_t all[200], next[most_threads];
	allocator_pool pool(256);
	array = new dynamic_array<uint32_t>(pool, initial, growth / 4.0);
	verif_i_true("an array starts empty", !(array->begin() != array->end()) && array->serialise(nullptr, 0) == 0);
	run_threads(how_many, each, stop, stop_again, append);
	size_t count = 0;
	for (size_t t = 0; t < how_many; t++)
		next[t] = 0;
	bool in_order = true;
	for (const auto &element : *array)
		{
		size_t thread = element / 1000;
		in_order &= thread < how_many && element % 1000 == next[thread]++;
		all[count++] = element;
		if (count == 200)
			break;
		}
	verif_i_true("an array has each element that was added to it once, and those of each thread in the order they were added", in_order);
	verif_i_true("an array has all the elements that were added to it", count == how_many * each);
	verif_i_true("the length of an array is the number of elements that were added to it", array->serialise(nullptr, 0) == count);
	for (size_t k = 0; k < count; k++)
		verif_i_true("an array can be indexed", (*array)[k] == all[k]);
	if (count)
		verif_i_true("the last element of an array is the last", array->back() == all[count - 1]);
	static uint32_t copy[200];
	for (size_t room : {count, count + 3, count / 2})
		{
		for (size_t k = 0; k < 200; k++)
			copy[k] = 7;
		verif_i_true("the length of an array is the number of elements that were added to it", array->serialise(copy, room) == count);
		bool same = true;
		for (size_t k = 0; k < 200; k++)
			same &= copy[k] == (k < count && k < room ? all[k] : 7);
		verif_i_true("serialising an array copies its elements, no more than there is room for", same);
		}
	delete array;
	}

/*
	the tree and the hash table
*/
struct counted
	{
	std::atomic<size_t> times;
	counted(allocator &) : times(0) {}
	};
static binary_tree<slice, counted> *tree;
static hash_table<slice, counted, 8> *table;
static const char *words[] = {"m", "a", "z", "ab", "", "zz", "b", "ma", "q", "aa", "y", "abc", "\xc3\xa9", "x", "f", "k"};
static size_t word_of(size_t thread, size_t which) { return scramble(salt * 77 + which * 3 + (which % 2 ? thread : 0)) % 16; }
static void count_word(size_t thread, size_t which)
	{
	slice key(words[word_of(thread, which)]);
	(tree ? (*tree)[key] : (*table)[key]).times++;
	}

static size_t found;
static void check_word(const slice &key, const counted &element, size_t how_many, size_t each)
	{
	size_t expected = 0, is = 16;
	for (size_t w = 0; w < 16; w++)
		if (strlen(words[w]) == key.size() && memcmp(words[w], key.address(), key.size()) == 0)
			is = w;
	for (size_t t = 0; t < how_many; t++)
		for (size_t w = 0; w < each; w++)
			expected += word_of(t, w) == is;
	verif_i_true("each key is there with what was added to it", is < 16 && expected > 0 && element.times == expected);
	found++;
	}

extern "C" void verif_h_keys(uint64_t hash, uint64_t how_many, uint64_t each, uint64_t seed, uint64_t stop, uint64_t stop_again)
	{
	allocator_pool pool(4096);
	salt = seed;
	if (hash)
		table = new hash_table<slice, counted, 8>(pool);
	else
		tree = new binary_tree<slice, counted>(pool);
	run_threads(how_many, each, stop, stop_again, count_word);
	bool wanted[16] = {};
	size_t distinct = 0;
	for (size_t t = 0; t < how_many; t++)
		for (size_t w = 0; w < each; w++)
			wanted[word_of(t, w)] = true;
	for (bool w : wanted)
		distinct += w;
	found = 0;
	if (hash)
		for (const auto entry : *table)
			check_word(entry.first, entry.second, how_many, each);
	else
		{
		slice previous;
		for (const auto entry : *tree)
			{
			verif_i_true("the keys of a tree are in order", found == 0 || entry.first < previous);
			previous = entry.first;
			check_word(entry.first, entry.second, how_many, each);
			}
		}
	verif_i_true("there is one of each key", found == distinct);
	}
