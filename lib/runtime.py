"""which library functions harness/runtime.h stands in for"""
_os = ("std::basic_ostream<char, std::char_traits<char>>& std::operator<<<", "std::ostream::operator<<(", "std::basic_ostream<char, std::char_traits<char>>::operator<<(")
_ss = "std::__cxx11::basic_ostringstream<char, std::char_traits<char>, std::allocator<char>>::"
STREAMS = {
    _os[0] + "std::char_traits<char>>(std::basic_ostream<char, std::char_traits<char>>&, char const*)": "verif_stream_text",
    _os[0] + "std::char_traits<char>>(std::basic_ostream<char, std::char_traits<char>>&, char)": "verif_stream_char",
    _os[0] + "char, std::char_traits<char>, std::allocator<char>>(std::basic_ostream<char, std::char_traits<char>>&, std::__cxx11::basic_string<char": "verif_stream_string",
    _os[1] + "unsigned long)": "verif_stream_number", _os[1] + "unsigned int)": "verif_stream_number32", _os[1] + "unsigned short)": "verif_stream_number16", _os[2] + "unsigned short)": "verif_stream_number16", _os[1] + "int)": "verif_stream_int", _os[2] + "int)": "verif_stream_int", _os[1] + "double)": "verif_stream_double", _os[2] + "double)": "verif_stream_double", _os[1] + "long)": "verif_stream_long", _os[2] + "long)": "verif_stream_long", _os[2] + "unsigned long)": "verif_stream_number", _os[2] + "unsigned int)": "verif_stream_number32",
    _ss + "basic_ostringstream()": "verif_stream_start", _ss + "~basic_ostringstream()": "verif_nothing", _ss + "str() const": "verif_stream_all",
    "std::ostream::write(char const*, long)": "verif_stream_bytes", "std::basic_ostream<char, std::char_traits<char>>::write(char const*, long)": "verif_stream_bytes",
    "memchr": "verif_memchr",
}
