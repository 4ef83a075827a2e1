/*
	The parts of the C++ library whose source is not at hand, as far as the code under analysis uses them: balanced trees (here not balanced),
	the sizes of hash tables, the clock, and streams (what is written to one is kept in a buffer).
*/
#pragma once
#include <map>
#include <chrono>
#include <string>
#include <sstream>
#include <unordered_map>
namespace std
	{
	_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
		{
		if (x->_M_right)
			{
			for (x = x->_M_right; x->_M_left; x = x->_M_left) {}
			return x;
			}
		_Rb_tree_node_base *y = x->_M_parent;
		while (x == y->_M_right)
			{
			x = y;
			y = y->_M_parent;
			}
		return x->_M_right != y ? y : x;
		}
	const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment((_Rb_tree_node_base *)x); }
	_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
		{
		if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x)
			return x->_M_right;
		if (x->_M_left)
			{
			for (x = x->_M_left; x->_M_right; x = x->_M_right) {}
			return x;
			}
		_Rb_tree_node_base *y = x->_M_parent;
		while (x == y->_M_left)
			{
			x = y;
			y = y->_M_parent;
			}
		return y;
		}
	const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement((_Rb_tree_node_base *)x); }
	void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw()
		{
		x->_M_parent = p;
		x->_M_left = x->_M_right = nullptr;
		x->_M_color = _S_black;
		if (left)
			{
			p->_M_left = x;					// for the header that is the leftmost
			if (p == &header)
				{
				header._M_parent = x;
				header._M_right = x;
				}
			else if (p == header._M_left)
				header._M_left = x;
			}
		else
			{
			p->_M_right = x;
			if (p == header._M_right)
				header._M_right = x;
			}
		}
	namespace __detail
		{
		size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { _M_next_resize = n | 1; return n | 1; }
		pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t buckets, size_t elements, size_t more) const
			{
			if (elements + more > buckets)
				return {true, (elements + more) * 2 + 1};
			return {false, 0};
			}
		}
	size_t _Hash_bytes(const void *p, size_t length, size_t seed)
		{
		size_t x = seed;
		for (size_t k = 0; k < length; k++)
			x = x * 31 + ((const unsigned char *)p)[k];
		return x;
		}
	namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(); } } }
	}

#ifdef MANY_STREAMS
/*
	each stream has its own buffer
*/
struct a_stream { const void *stream; char *text; size_t bytes; };
static a_stream streams[64];
static size_t how_many_streams;
static a_stream &that_stream(const void *stream)
	{
	for (size_t k = 0; k < how_many_streams; k++)
		if (streams[k].stream == stream)
			return streams[k];
	streams[how_many_streams] = {stream, new char[40000], 0};
	return streams[how_many_streams++];
	}
#define streamed (that_stream(stream).text)
#define streamed_bytes (that_stream(stream).bytes)
#else
static char streamed[200000];
static size_t streamed_bytes;
#endif
extern "C" void verif_stream_start(void *stream) { streamed_bytes = 0; }
extern "C" void *verif_stream_text(void *stream, const char *what) { while (*what) streamed[streamed_bytes++] = *what++; return stream; }
extern "C" void *verif_stream_char(void *stream, char what) { streamed[streamed_bytes++] = what; return stream; }
extern "C" void *verif_stream_string(void *stream, const std::string &what) { for (size_t k = 0; k < what.size(); k++) streamed[streamed_bytes++] = what[k]; return stream; }
extern "C" void *verif_stream_number(void *stream, unsigned long what)
	{
	char digits[24];
	size_t n = 0;
	do
		digits[n++] = '0' + what % 10;
	while ((what /= 10) != 0);
	while (n > 0)
		streamed[streamed_bytes++] = digits[--n];
	return stream;
	}
extern "C" void *verif_stream_number32(void *stream, unsigned int what) { return verif_stream_number(stream, what); }
extern "C" std::string verif_stream_all(void *stream) { return std::string(streamed, streamed_bytes); }
extern "C" const void *verif_memchr(const char *at, int what, size_t n) { for (; n > 0; n--, at++) if (*at == (char)what) return at; return nullptr; }
extern "C" void *verif_stream_bytes(void *stream, const char *what, long n) { for (long k = 0; k < n; k++) streamed[streamed_bytes++] = what[k]; return stream; }
extern "C" void *verif_stream_number16(void *stream, unsigned short what) { return verif_stream_number(stream, what); }
extern "C" void *verif_stream_long(void *stream, long what) { if (what < 0) { streamed[streamed_bytes++] = '-'; what = -what; } return verif_stream_number(stream, what); }
extern "C" void *verif_stream_int(void *stream, int what) { return verif_stream_long(stream, what); }
extern "C" void *verif_stream_double(void *stream, double) { return stream; }
