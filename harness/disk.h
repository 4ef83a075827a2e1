/*
	The C library's files as arrays of bytes, which may be made to start at any offset.
*/
#pragma once
struct image { char name[40]; uint8_t *data; uint64_t length, base, capacity, at; bool open; };
static image disk[16];
// faults: the room on the disk, whether that it is full is told when writing or only when flushing and closing, how much can be read, and what is refused
static uint64_t room = 1ULL << 60, readable = 1ULL << 60;
static bool told_late = false, lost = false;
static bool refuse_open = false, refuse_stat = false, refuse_map = false, refuse_close = false;
static size_t files = 0;
static image terminal[3];
FILE *stdin = (FILE *)&terminal[0], *stdout = (FILE *)&terminal[1], *stderr = (FILE *)&terminal[2];
static image *find_file(const char *name, bool create)
	{
	for (size_t k = 0; k < files; k++)
		if (strcmp(disk[k].name, name) == 0)
			return &disk[k];
	if (!create)
		return nullptr;
	for (size_t k = 0; (disk[files].name[k] = name[k]) != 0; k++) { }
	disk[files].capacity = 400000;
	disk[files].data = new uint8_t[disk[files].capacity];
	disk[files].length = disk[files].base = 0;
	return &disk[files++];
	}
extern "C" FILE *fopen(const char *name, const char *mode)
	{
	image *f = refuse_open ? nullptr : find_file(name, mode[0] == 'w');
	if (f)
		{
		f->open = true;
		f->at = 0;
		if (mode[0] == 'w')
			f->length = 0;
		}
	return (FILE *)f;
	}
extern "C" size_t fwrite(const void *from, size_t size, size_t n, FILE *into)
	{
	image *f = (image *)into;
	verif_i_true("a file is written only while it is open", f != nullptr && f->open);
	size_t bytes = size * n;
	if (bytes > room)
		{
		lost = true;
		if (!told_late)
			bytes = room;
		}
	room -= bytes < room ? bytes : room;
	for (size_t k = 0; k < bytes; k++)
		f->data[f->at + k] = ((const uint8_t *)from)[k];
	f->at += bytes;
	if (f->at > f->length)
		f->length = f->at;
	return size == 0 ? 0 : bytes / size;
	}
extern "C" int fflush(FILE *) { return lost && told_late ? EOF : 0; }
extern "C" int fclose(FILE *file) { ((image *)file)->open = false; return (lost && told_late) || refuse_close ? EOF : 0; }
extern "C" int open(const char *name, int flags, ...) { image *f = refuse_open ? nullptr : find_file(name, false); return f ? f - disk + 3 : -1; }
extern "C" int close(int) { return 0; }
extern "C" int fstat(int descriptor, struct stat *into) throw() { if (refuse_stat) return -1; into->st_size = disk[descriptor - 3].base + disk[descriptor - 3].length; return 0; }
extern "C" void *mmap(void *, size_t, int, int, int descriptor, off_t) throw() { return refuse_map || disk[descriptor - 3].length == 0 ? (void *)-1 : disk[descriptor - 3].data - disk[descriptor - 3].base; }
extern "C" int munmap(void *, size_t) throw() { return 0; }
extern "C" int fileno(FILE *file) throw() { return (image *)file - disk + 3; }
extern "C" size_t fread(void *into, size_t size, size_t n, FILE *from)
	{
	image *f = (image *)from;
	verif_i_true("a file is read only while it is open", f != nullptr && f->open);
	size_t bytes = size * n;
	if (f->at >= f->length)
		return 0;
	if (bytes > f->length - f->at)
		bytes = f->length - f->at;
	if (bytes > readable)
		bytes = readable;
	readable -= bytes;
	for (size_t k = 0; k < bytes; k++)
		((uint8_t *)into)[k] = f->data[f->at + k];
	f->at += bytes;
	return size == 0 ? 0 : bytes / size;
	}
extern "C" int fseeko(FILE *file, off_t to, int from) { image *f = (image *)file; f->at = from == SEEK_END ? f->length + to : from == SEEK_CUR ? f->at + to : to; return 0; }
extern "C" off_t ftello(FILE *file) { return ((image *)file)->at; }
