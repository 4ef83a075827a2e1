/*
	The search tool: its command line and its query file on one side, its ranking on the other.
*/
#define MANY_STREAMS
#include "h_search.cpp"
#define main anytime_main
#include "../anytime/JASS_anytime.cpp"
#undef main

extern "C" double strtod(const char *from, char **end) throw()
	{
	const char *start = from;
	double x = 0, scale = 1;
	for (; *from >= '0' && *from <= '9'; from++)
		x = x * 10 + (*from - '0');
	if (*from == '.')
		for (from++; *from >= '0' && *from <= '9'; from++)
			x += (*from - '0') * (scale /= 10);
	if (end)
		*end = (char *)(from == start ? start : from);
	return x;
	}
extern "C" unsigned long long strtoull(const char *from, char **end, int) throw() { unsigned long long x = 0; while (*from >= '0' && *from <= '9') x = x * 10 + (*from++ - '0'); if (end) *end = (char *)from; return x; }
extern "C" long long strtoll(const char *from, char **end, int base) throw() { return strtoull(from, end, base); }
extern "C" long strtol(const char *from, char **end, int base) throw() { return strtoull(from, end, base); }
extern "C" long atol(const char *from) throw() { return strtoull(from, nullptr, 10); }
extern "C" long long atoll(const char *from) throw() { return strtoull(from, nullptr, 10); }
extern "C" int isdigit(int c) throw() { return c >= '0' && c <= '9'; }
extern "C" int isalnum(int c) throw() { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
extern "C" bool verif_same_type(const void *a, const void *b) { return a == b; }
extern "C" void verif_exit(int code) { verif_i_true("a good command line does not end the tool", false); throw code; }
static int number_of_the_last_error;
extern "C" int *__errno_location() throw() { return &number_of_the_last_error; }

static std::string digits(uint64_t n) { return std::to_string(n); }
static std::string amount_of(uint64_t amount)
	{
	static const char *eighths[] = {"", ".125", ".25", ".375", ".5", ".625", ".75", ".875"};
	return amount >= 1000 ? digits((amount - 1000) / 8) + eighths[(amount - 1000) % 8] : digits(amount);
	}
static std::string contents(const char *name)
	{
	image *f = find_file(name, false);
	verif_i_true("the tool writes its files", f != nullptr && !f->open);
	return f == nullptr ? std::string() : std::string((char *)f->data, f->length);
	}

extern "C" void verif_h_tool(uint64_t version, uint64_t documents, uint64_t terms, uint64_t seed, uint64_t k, uint64_t mode, uint64_t amount, uint64_t style, uint64_t layout, uint64_t threads)
	{
	// layout: 0 a query a line; 1 blank lines and carriage returns; 2 no last end of line; 3 topics; 4 topics on one line; 5 nothing; 6 nothing but blank lines; 7 a long line
	// style: bit 0 long names, bit 1 joined values, bit 2 the ASCII parser, bit 3 a width
	ascii_code_points();
	make_index(version, 's', documents, terms, seed, false, true);
	asked = 0;
	std::vector<std::string> lines;
	bool topics = layout == 3 || layout == 4;
	if (layout < 5 || layout == 7)
		{
		ask("701", " ", {0, 1, 2}, nullptr, &lines);
		ask(topics ? "22" : "q2", ":", {1, -2, 1, 2}, nullptr, &lines);
		ask("3", " \t: ", {-1}, nullptr, &lines);
		ask("4", " ", {}, nullptr, &lines);
		ask(topics ? "44" : "a4", "\t", {2, -1, 0, 2, -2, 3, 2}, nullptr, &lines);
		ask("5", " ", {3}, nullptr, &lines);
		if (layout == 7)
			ask("6", std::string(4200, ' ').c_str(), {1}, nullptr, &lines);
		}
	std::string file = layout == 1 || layout == 6 ? "\n \t\r\n" : "";
	for (size_t which = 0; which < asked; which++)
		{
		const char *gap = layout == 4 ? " " : "\n";
		if (topics)
			file += "<top>" + std::string(gap) + "<num> Number: " + questions[which].id + gap + "<title> " + questions[which].text + gap + "<desc> Description:" + gap + "not these c cc ccc" + gap + "</top>" + gap;
		else
			{
			file += lines[which];
			if (layout == 1)
				file += which % 2 ? "\r\n\r\n \t\n" : " \n\n\n";
			else if (layout != 2 || which + 1 != asked)
				file += "\n";
			}
		}
	image *queries = find_file("queries", true);
	memcpy(queries->data, file.c_str(), queries->length = file.size());

	std::vector<std::string> words = {"tool"};
	auto option = [&](const char *shorter, const char *longer, const std::string &value)
		{
		std::string name = style & 1 ? longer : shorter;
		if (style & 2)
			words.push_back(name + value);
		else
			{
			words.push_back(name);
			words.push_back(value);
			}
		};
	if (version == 2)
		words.push_back(style & 1 ? "--v2_index" : "-2");
	if (style & 4)
		words.push_back(style & 1 ? "--asciiparser" : "-a");
	option("-q", "--queryfile", "queries");
	if (k != 10 || style & 1)
		option("-k", "--top-k", digits(k));
	if (threads != 1)
		option("-t", "--threads", digits(threads));
	if (style & 8)
		option("-w", "--width", "3");
	if (mode == 1)
		option("-R", "--RHO", digits(amount));
	if (mode == 2)
		option("-\xE2\x84\x9D", "--Relative_RHO", amount_of(amount));
	if (mode == 3)
		option("-r", "--rho", amount_of(amount));
	if (mode == 6)
		option("-\xE2\x8C\x8Ar\xE2\x8C\x8B", "--rho_min", amount_of(amount));		// a minimum is not a maximum
	if (mode == 7)
		option("-\xE2\x8C\x8AR\xE2\x8C\x8B", "--RHO_min", digits(amount));
	if (mode == 4)
		{
		image *oracle = find_file("oracle", true);
		memcpy(oracle->data, "nobody\n700 9\n a 3\n", oracle->length = 18);		// of none of the queries
		option("-Q", "--queryrsvfile", "oracle");
		option("-\xE2\x8C\x8AR\xE2\x8C\x8B", "--RHO_min", "2");
		}
	std::vector<const char *> argv;
	for (auto &word : words)
		argv.push_back(word.c_str());
	int argc = argv.size();
	argv.push_back(nullptr);
	if (mode == 5)
		{
		// the disk is full
		room = amount;
		told_late = style & 1;
		verif_i_true("the tool says when the results could not be written", (anytime_main(argc, &argv[0]) != 0) == lost);
		return;
		}
	verif_i_true("the tool succeeds", anytime_main(argc, &argv[0]) == 0);

	// in the order of the ids
	size_t order[8];
	for (size_t which = 0; which < asked; which++)
		{
		size_t at = which;
		while (at > 0 && questions[order[at - 1]].id > questions[which].id)
			{
			order[at] = order[at - 1];
			at--;
			}
		order[at] = which;
		}
	std::string stats = contents("JASSv2Stats.txt"), ranking = contents("ranking.txt");
	line_bytes = 0;
	bool doubt = false, exactly = true;
	size_t ids = 0;
	for (size_t at = stats.find("<id>"); at != std::string::npos; at = stats.find("<id>", at + 1))
		ids++;
	verif_i_true("every query is reported on once, and nothing else is", ids == asked);
	for (size_t which = 0; which < asked; which++)
		{
		const question &q = questions[order[which]];
		segments_of(q);
		uint64_t budget = mode == 1 && amount != 0 ? amount : mode == 2 ? (amount >= 1000 ? postings_of_query * (amount - 1000) / 800 : postings_of_query * amount / 100) : mode == 3 ? (amount >= 1000 ? documents_indexed * (amount - 1000) / 800 : documents_indexed * amount / 100) : ~0ULL;
		if (amount == 100)
			budget = mode == 3 || mode == 2 ? ~0ULL : budget;
		bool this_one;
		uint64_t processed = evaluate(budget, this_one);
		doubt |= this_one;
		exactly &= largest_possible <= query::MAX_RSV;
		write_answer(q, k);
		verif_i_true("every query is reported on with its id, its text and how many postings were processed", stats.find("<id>" + q.id + "</id><query>" + q.text + "</query><postings>" + digits(processed) + "</postings>") != std::string::npos);
		}
	if (doubt || !exactly)
		return;
	verif_i_true("the ranking has the top k documents of every query", ranking.size() == line_bytes);
	if (ranking.size() == line_bytes)
		verif_i_same("the ranking has the results of every query, best first, with the options that were given", ranking.c_str(), line, line_bytes, 1);
	}
