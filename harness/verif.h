/*
	The obligations a harness can state to the abstract interpreter (tool/absint.cpp).  A harness is never executed: it is compiled to LLVM IR
	together with the repository's code and interpreted over abstract values.
*/
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
	void verif_i_fresh(void *p, uint64_t bits, uint64_t free_low_bits, int bit_above);				// any value of that many bits
	void verif_i_fresh_at(void *p, uint64_t bits, uint64_t first, uint64_t count);					// any value in a bit field, the rest stays
	void verif_i_ranked(void *p, uint64_t bits, uint64_t group, uint64_t rank);								// any value at that place of a weak order (rank 0: zero; rank r: at least r)
	void verif_i_undefine(void *p, uint64_t bytes);															// memory that was never written
	void verif_i_same(const char *what, const void *a, const void *b, uint64_t words, uint64_t bytes_per_word);	// obligation: always equal
	void verif_i_true(const char *what, bool condition);														// obligation: always true
	void verif_i_thread(uint64_t what, uint64_t which);											// 0: makes that thread, 1: is that thread from here on, 2: has waited for it to end (the main one is 0); 3: verif_preempted() is called before the atomic operation of that number; 4: atomic operations order the threads too
	void verif_i_unwritten(const char *what, const void *p, uint64_t bytes);							// obligation: every byte has been written
}
template <typename T> static inline void any(T &x) { verif_i_fresh(&x, sizeof(T) * 8, sizeof(T) * 8, -1); }
template <typename T> static inline void any(T *x, size_t n) { for (size_t k = 0; k < n; k++) any(x[k]); }
template <typename T> static inline void garbage(T *p, size_t bytes) { uint8_t *q = (uint8_t *)p; for (size_t k = 0; k < bytes; k++) any(q[k]); }
template <typename T> static inline void same(const char *what, const T &a, const T &b) { T x = a, y = b; verif_i_same(what, &x, &y, 1, sizeof(T)); }
extern "C" inline __attribute__((used)) void verif_nothing(void *) {}
