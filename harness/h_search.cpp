/*
	Searching: an index is written and loaded, and queries are put to the search engine.  What comes out, as text in TREC format, must be what an
	exhaustive evaluation over the same postings gives.
*/
#include "h_index.cpp"
#include "runtime.h"
#include <pthread.h>
#define private public
#define protected public
#include "../anytime/JASS_anytime_api.h"
#include "unicode_tables.h"
#undef private
#undef protected

extern "C" size_t verif_read_index(deserialised_jass_v1 *index, const std::string &) { return index->read_index_explicit("CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin"); }
extern "C" void verif_term_list(query_term_list *list) { list->terms_in_query = 0; }

/*
	the oracle's file
*/
extern "C" int isspace(int c) throw() { return c == ' ' || (c >= 9 && c <= 13); }
extern "C" unsigned long strtoul(const char *from, char **, int) throw() { unsigned long x = 0; while (*from >= '0' && *from <= '9') x = x * 10 + (*from++ - '0'); return x; }
extern "C" const char *verif_strchr(const char *at, int what) { for (; *at; at++) if (*at == (char)what) return at; return what == 0 ? at : nullptr; }

/*
	threads: each runs when it is made, or when it is waited for
*/
struct waiting { void *(*start)(void *); void *with; bool done; };
static waiting thread_list[16];
static size_t thread_count;
static uint64_t thread_order;			// 0 at once, 1 when waited for, 2 the last first
static size_t threads_joined, running;
static void run(size_t which)
	{
	waiting &w = thread_list[which];
	if (w.done)
		return;
	w.done = true;
	auto start = w.start;
	auto with = w.with;
	size_t before = running;
	verif_i_thread(1, running = which + 1);
	start(with);
	verif_i_thread(1, running = before);
	}
extern "C" void verif_preempted()
	{
	// the next thread runs to its end while this one waits
	for (size_t k = 0; k < thread_count; k++)
		if (!thread_list[k].done)
			return run(k);
	}
extern "C" int pthread_attr_init(pthread_attr_t *) throw() { return 0; }
extern "C" int pthread_attr_setstacksize(pthread_attr_t *, size_t) throw() { return 0; }
extern "C" int pthread_create(pthread_t *id, const pthread_attr_t *, void *(*start)(void *), void *with) throw()
	{
	*id = thread_count;
	thread_list[thread_count++] = {start, with, false};
	verif_i_thread(0, thread_count);
	if (thread_order == 0)
		run(thread_count - 1);
	return 0;
	}
extern "C" int pthread_join(pthread_t id, void **)
	{
	if (thread_order == 2)
		for (size_t k = thread_count; k > 0; k--)
			run(k - 1);
	run(id);
	verif_i_thread(2, id + 1);
	threads_joined++;
	return 0;
	}

static constexpr size_t most_terms = 8;
static list indexed[most_terms];
static uint8_t key[64][16];
static size_t key_length[64];
static size_t documents_indexed, terms_indexed;
static bool of_letters;

static void make_index(uint64_t version, uint64_t codex, size_t documents, size_t terms, uint64_t seed, bool big, bool letters)
	{
	documents_indexed = documents;
	terms_indexed = terms;
	of_letters = letters;
	for (size_t t = 0; t < terms; t++)
		{
		list &l = indexed[t];
		size_t place = t;
		if (letters)
			{
			l.length = 1 + (seed + t) % 4;
			for (size_t b = 0; b < l.length; b++)
				l.text[b] = 'b' + t;
			l.text[l.length] = 0;
			}
		else
			make_text(l.text, l.length = 1 + (seed + t) % 4, place + 3);
		l.postings = 0;
		for (size_t d = 0; d < documents; d++)
			{
			uint64_t r = scramble(seed * 1009 + t * 131 + d);
			if (r % 4 < 1 + t % 3)
				{
				l.id[l.postings] = d + 1;
				l.tf[l.postings++] = big ? 1 + (r >> 8) % 3 * 60 + (r >> 16) % 4 : 1 + (r >> 8) % (2 + t);
				}
			}
		if (l.postings == 0)
			{
			l.id[0] = 1 + t % documents;
			l.tf[0] = 2;
			l.postings = 1;
			}
		}
	serialise_jass_v1 *out = version == 2 ? new serialise_jass_v2(documents, (serialise_jass_v1::jass_v1_codex)codex, 1) : new serialise_jass_v1(documents, (serialise_jass_v1::jass_v1_codex)codex, codex == 'q' ? 16 : 1);
	index_manager::delegate &to = *out;
	allocator_pool memory(1024 * 1024);
	uint8_t *temporary = new uint8_t[8192];
	compress_integer::integer *ids = new compress_integer::integer[1024];
	index_postings_impact::impact_type *tfs = new index_postings_impact::impact_type[1024];
	for (size_t t = 0; t < terms; t++)
		{
		index_postings accumulated(memory);
		accumulate(accumulated, indexed[t]);
		auto df = accumulated.linearize(temporary, 8192, ids, tfs, 1024);
		to(slice((void *)indexed[t].text, indexed[t].length), accumulated, df, ids, tfs);
		}
	to(0, slice("-"));
	for (size_t d = 0; d < documents; d++)
		{
		key_length[d] = 1 + (d * 5 + seed) % 7;
		make_text(key[d], key_length[d], d % 15);
		to(d + 1, slice((void *)key[d], key_length[d]));
		}
	out->finish();
	delete out;
	}

/*
	queries
*/
struct question { std::string id, text; size_t times[most_terms], unknown; };
static question questions[8];
static size_t asked;
static void ask(const char *id, const char *separator, std::initializer_list<int> terms, std::vector<JASS_anytime_query> *into, std::vector<std::string> *as_strings)
	{
	question &q = questions[asked++];
	q.id = id;
	q.text = "";
	q.unknown = 0;
	for (size_t t = 0; t < most_terms; t++)
		q.times[t] = 0;
	for (int t : terms)
		{
		if (q.text.size() != 0)
			q.text += " ";
		if (t == -2)
			{
			q.unknown += 2;
			q.text += of_letters ? "a 7" : "! #";				// none of them is indexed, and each comes before those that are
			}
		else if (t < 0 || (size_t)t >= terms_indexed)
			{
			q.unknown++;
			q.text += "zzzzz";
			}
		else
			{
			q.text.append((char *)indexed[t].text, indexed[t].length);
			q.times[t]++;
			}
		}
	std::string whole = q.id + separator + q.text;
	if (into != nullptr)
		into->push_back(whole);
	if (as_strings != nullptr)
		as_strings->push_back(whole);
	}

struct segment { uint64_t impact, count; size_t term; uint16_t tf; };
static segment part[200];
static size_t parts;
static uint64_t score[64];
static uint64_t whole_score[64];
static uint64_t largest_possible, postings_of_query;

/*
	which segments there are, in the order they must be processed
*/
static void segments_of(const question &q)
	{
	parts = 0;
	largest_possible = postings_of_query = 0;
	for (size_t t = 0; t < terms_indexed; t++)
		if (q.times[t] != 0)
			{
			uint64_t largest = 0;
			for (size_t tf = 255; tf > 0; tf--)
				{
				size_t count = 0;
				for (size_t p = 0; p < indexed[t].postings; p++)
					count += indexed[t].tf[p] == tf;
				if (count == 0)
					continue;
				part[parts++] = {tf * q.times[t], count, t, (uint16_t)tf};
				if (tf > largest)
					largest = tf;
				}
			largest_possible += largest * q.times[t];
			postings_of_query += indexed[t].postings;
			}
	for (size_t a = 1; a < parts; a++)
		for (size_t b = a; b > 0 && (part[b].impact > part[b - 1].impact || (part[b].impact == part[b - 1].impact && part[b].count < part[b - 1].count)); b--)
			std::swap(part[b], part[b - 1]);
	}

/*
	the scores when no more than the budget is processed.  Returns how many postings that is; sets doubt if it depends on the order of segments that are alike
*/
static uint64_t evaluate(uint64_t budget, bool &doubt)
	{
	for (size_t d = 0; d < 64; d++)
		score[d] = whole_score[d] = 0;
	for (size_t t = 0; t < parts; t++)
		for (size_t p = 0; p < indexed[part[t].term].postings; p++)
			if (indexed[part[t].term].tf[p] == part[t].tf)
				whole_score[indexed[part[t].term].id[p] - 1] += part[t].impact;
	uint64_t processed = 0;
	doubt = false;
	for (size_t s = 0; s < parts; s++)
		{
		if (processed + part[s].count > budget)
			{
			doubt = s > 0 && part[s - 1].impact == part[s].impact && part[s - 1].count == part[s].count;
			break;
			}
		processed += part[s].count;
		for (size_t p = 0; p < indexed[part[s].term].postings; p++)
			if (indexed[part[s].term].tf[p] == part[s].tf)
				score[indexed[part[s].term].id[p] - 1] += part[s].impact;
		}
	return processed;
	}

static char line[20000];
static size_t line_bytes;
static void text(const char *what, size_t length) { for (size_t k = 0; k < length; k++) line[line_bytes++] = what[k]; }
static void text(const char *what) { text(what, strlen(what)); }
static void number(uint64_t n) { char digits[24]; size_t k = 0; do digits[k++] = '0' + n % 10; while ((n /= 10) != 0); while (k > 0) line[line_bytes++] = digits[--k]; }

static void write_answer(const question &q, size_t k)
	{
	// the lines for the scores as they are
	size_t order[64], found = 0;
	for (size_t d = documents_indexed; d > 0; d--)
		if (score[d - 1] != 0)
			{
			size_t at = found++;
			while (at > 0 && score[order[at - 1]] < score[d - 1])
				{
				order[at] = order[at - 1];
				at--;
				}
			order[at] = d - 1;
			}
	if (found > k)
		found = k;
	for (size_t r = 0; r < found; r++)
		{
		size_t d = order[r];
		text(q.id.c_str(), q.id.size());
		text(" Q0 ");
		text((char *)key[d], key_length[d]);
		text(" ");
		number(r + 1);
		text(" ");
		number(score[d]);
		text(" JASSv2(ID:");
		number(d);
		text("->");
		number(score[d]);
		text(")\n");
		}
	}

static void check_answer(const question &q, const JASS_anytime_result &got, size_t k, uint64_t budget, bool exactly)
	{
	verif_i_true("a result is for the query that was asked", got.query_id == q.id);
	verif_i_true("the text of the query is the query without its id", got.query.size() == q.text.size());
	bool doubt;
	uint64_t processed = evaluate(budget, doubt);
	verif_i_true("no more than the given number of postings is processed", got.postings_processed <= budget);
	verif_i_true("postings are processed in order of impact for as long as the next ones fit", got.postings_processed == processed);
	if (!exactly || doubt)
		return;
	line_bytes = 0;
	write_answer(q, k);
	verif_i_true("the results are the top k documents", got.results_list.size() == line_bytes);
	if (got.results_list.size() == line_bytes)
		verif_i_same("each line holds the query's id, the document's key, its rank and its score, best first", got.results_list.c_str(), line, line_bytes, 1);
	}

/*
	scores that do not fit are scaled down together.  The largest is 255, each segment a document is in adds at most one by rounding.
*/
static void check_scaled(JASS_anytime_api &engine, const question &q, size_t k, uint64_t budget, size_t thread)
	{
	bool doubt;
	evaluate(budget, doubt);
	if (doubt)
		return;
	uint64_t terms = q.unknown;
	for (size_t t = 0; t < terms_indexed; t++)
		terms += q.times[t] != 0;
	uint64_t room = query::MAX_RSV - terms - 1, top = query::MAX_RSV;
	auto &query = *engine.thread_local_data[thread].jass_query;
	uint64_t previous = top, last = 0, found = 0;
	bool listed[64] = {};
	auto end = query.rend();
	for (auto result = query.rbegin(); result != end; ++result)
		{
		auto pair = *result;
		uint64_t s = score[pair.document_id];
		uint64_t rsv = pair.rsv;
		verif_i_true("a scaled score is in proportion to the score", rsv * largest_possible >= s * room && (rsv <= terms + 1 || (rsv - terms - 1) * largest_possible <= s * top));
		verif_i_true("a document is listed once, best first", !listed[pair.document_id] && rsv <= previous);
		previous = rsv;
		listed[pair.document_id] = true;
		last = s;
		found++;
		}
	uint64_t wanted = 0;
	for (size_t d = 0; d < documents_indexed; d++)
		{
		wanted += score[d] != 0;
		if (!listed[d] && found == k)
			verif_i_true("a document that is better by more than rounding is not left out", score[d] * room <= last * top + (terms + 1) * largest_possible);
		}
	verif_i_true("the top k is full if that many documents were found", found == (wanted < k ? wanted : k));
	}

/*
	an amount that is a percentage is, from 1000 on, in eighths
*/
static double percent(uint64_t amount) { return amount >= 1000 ? (amount - 1000) / 8.0 : amount; }
static uint64_t budget_for(JASS_anytime_api &engine, uint64_t mode, uint64_t amount)
	{
	if (mode == 2)
		return amount >= 1000 ? postings_of_query * (amount - 1000) / 800 : postings_of_query * amount / 100;
	if (mode == 1)
		return amount;
	if (mode == 3)
		return amount >= 1000 ? documents_indexed * (amount - 1000) / 800 : documents_indexed * amount / 100;
	return ~0ULL;
	}

static void start(JASS_anytime_api &engine, uint64_t version, size_t k, uint64_t mode, uint64_t amount, bool letters)
	{
	if (mode == 4)
		{
		image *file = find_file("oracle", true);
		memcpy(file->data, "nobody\n700 9\n a 3\n", file->length = 18);		// of none of the queries
		std::string name("oracle");
		verif_i_true("an oracle loads", engine.load_oracle_scores(name) == JASS_ERROR_OK);
		}
	verif_i_true("the number of results can be set", engine.set_top_k(k) == JASS_ERROR_OK);
	verif_i_true("an index loads", engine.load_index(version, "") == JASS_ERROR_OK);
	verif_i_true("the number of documents is the number indexed", engine.get_document_count() == documents_indexed);
	letters ? engine.use_query_parser() : engine.use_ascii_parser();
	if (mode == 1)
		engine.set_postings_to_process(amount);
	if (mode == 2)
		engine.set_postings_to_process_relative(percent(amount));
	if (mode == 3)
		engine.set_postings_to_process_proportion(percent(amount));
	}

/*
	queries one after the other, on an index with scores that fit (big = 0) or do not (big = 1)
*/
extern "C" void verif_h_search(uint64_t version, uint64_t codex, uint64_t documents, uint64_t terms, uint64_t seed, uint64_t k, uint64_t big, uint64_t mode, uint64_t amount, uint64_t letters)
	{
	ascii_code_points();
	make_index(version, codex, documents, terms, seed, big, letters);
	auto *engine = new JASS_anytime_api;
	start(*engine, version, k, mode, amount, letters);
	std::vector<JASS_anytime_query> queries;
	asked = 0;
	ask("701", " ", {0, 1, 2}, &queries, nullptr);
	ask("q2", ":", {1, -2, 1, 2}, &queries, nullptr);
	ask("3", " \t: ", {-1}, &queries, nullptr);
	ask("a4", "\t", {2, -1, 0, 2, -2, 3, 2}, &queries, nullptr);
	ask("5", " ", {3}, &queries, nullptr);
	if (big)
		{
		// one at a time, so that what the scores were can be seen
		for (size_t which = 0; which < asked; which++)
			{
			std::string whole = questions[which].id + " " + questions[which].text;
			auto result = engine->search(whole);
			segments_of(questions[which]);
			uint64_t budget = budget_for(*engine, mode, amount);
			check_answer(questions[which], result, k, budget, largest_possible <= query::MAX_RSV);
			if (largest_possible > query::MAX_RSV)
				check_scaled(*engine, questions[which], k, budget, 0);
			}
		return;
		}
	std::vector<JASS_anytime_thread_result> output;
	verif_i_true("a search succeeds", engine->search(output, queries, 1) == JASS_ERROR_OK);
	verif_i_true("there is one set of results for each thread", output.size() == 1);
	size_t results = 0;
	for (auto &one : output[0])
		{
		for (size_t which = 0; which < asked; which++)
			if (questions[which].id == one.first)
				{
				results++;
				segments_of(questions[which]);
				check_answer(questions[which], one.second, k, budget_for(*engine, mode, amount), largest_possible <= query::MAX_RSV);
				}
		}
	verif_i_true("each query is answered once", results == asked && output[0].results.size() == asked);
	}

/*
	with an oracle: what the lowest score in the top k is (what = 0), something less (1), something more (2)
*/
extern "C" void verif_h_oracle(uint64_t version, uint64_t documents, uint64_t terms, uint64_t seed, uint64_t k, uint64_t what)
	{
	ascii_code_points();
	make_index(version, 's', documents, terms, seed, false, true);
	auto *engine = new JASS_anytime_api;
	std::vector<JASS_anytime_query> queries;
	asked = 0;
	ask("1", " ", {0, 1, 2}, &queries, nullptr);
	ask("17", " ", {2, 1, -2, 3, 2}, &queries, nullptr);
	ask("2", " ", {1}, &queries, nullptr);
	image *file = find_file("oracle", true);
	uint64_t least[8];
	line_bytes = 0;
	for (size_t which = 0; which < asked; which++)
		{
		segments_of(questions[which]);
		bool doubt;
		evaluate(~0ULL, doubt);
		for (least[which] = 255; least[which] > 0; least[which]--)
			{
			size_t reach = 0;
			for (size_t d = 0; d < documents; d++)
				reach += score[d] >= least[which];
			if (reach >= k)
				break;
			}
		text(questions[which].id.c_str());
		text("  ");
		number(what == 0 ? least[which] : what == 1 ? (least[which] + 1) / 2 : what == 2 ? least[which] + 3 : 256);
		text(which % 2 ? "\r\n" : "\n");
		}
	memcpy(file->data, line, line_bytes);
	file->length = line_bytes;
	std::string name("oracle");
	verif_i_true("an oracle loads", engine->load_oracle_scores(name) == JASS_ERROR_OK);
	start(*engine, version, k, 0, 0, true);
	std::vector<JASS_anytime_thread_result> output;
	for (size_t which = 0; which < asked; which++)
		{
		std::string whole = questions[which].id + " " + questions[which].text;
		auto result = engine->search(whole);
		segments_of(questions[which]);
		bool doubt;
		evaluate(~0ULL, doubt);
		size_t wanted = 0, found = 0;
		for (size_t d = 0; d < documents; d++)
			wanted += score[d] > 0;
		bool listed[64] = {};
		auto &query = *engine->thread_local_data[0].jass_query;
		auto end = query.rend();
		for (auto place = query.rbegin(); place != end; ++place)
			{
			auto pair = *place;
			verif_i_true("a document is listed once", !listed[pair.document_id]);
			listed[pair.document_id] = true;
			verif_i_true("a document that is found has as much as the worst of the top k", what == 1 || score[pair.document_id] >= least[which]);
			verif_i_true("no document has more than its score", pair.rsv <= score[pair.document_id]);
			found++;
			}
		verif_i_true("the top k is full if that many documents were found", found == (wanted < k ? wanted : k));
		}
	}

/*
	the same queries with several threads: the answers are what they are with one, whichever thread gets which query, and no thread touches what another writes
*/
extern "C" void verif_h_threads(uint64_t version, uint64_t codex, uint64_t documents, uint64_t terms, uint64_t seed, uint64_t k, uint64_t threads, uint64_t order, uint64_t mode, uint64_t amount, uint64_t again, uint64_t preempt)
	{
	ascii_code_points();
	make_index(version, codex, documents, terms, seed, false, true);
	auto *engine = new JASS_anytime_api;
	start(*engine, version, k, mode, amount, true);
	thread_order = order;
	std::vector<std::string> as_strings;
	asked = 0;
	ask("701", " ", {0, 1, 2}, nullptr, &as_strings);
	ask("q2", ":", {1, -2, 1, 2}, nullptr, &as_strings);
	as_strings.push_back("");
	ask("3", " \t: ", {-1}, nullptr, &as_strings);
	ask("a4", "\t", {2, -1, 0, 2, -2, 3, 2}, nullptr, &as_strings);
	ask("5", " ", {3}, nullptr, &as_strings);
	for (uint64_t round = 0; round < again; round++)
		{
		thread_count = threads_joined = 0;
		verif_i_thread(3, preempt);
		auto output = engine->threaded_search(as_strings, threads);
		verif_i_true("there is one set of results for each thread", output.size() == threads);
		verif_i_true("every thread is waited for", threads_joined == thread_count && (threads == 1 || thread_count == threads));
		size_t times[8] = {}, results = 0;
		for (auto &thread : output)
			for (auto &one : thread)
				{
				results++;
				for (size_t which = 0; which < asked; which++)
					if (questions[which].id == one.first)
						{
						times[which]++;
						segments_of(questions[which]);
						check_answer(questions[which], one.second, k, budget_for(*engine, mode, amount), true);
						}
				}
		verif_i_true("nothing but the queries is answered", results == asked);
		for (size_t which = 0; which < asked; which++)
			verif_i_true("each query is answered exactly once", times[which] == 1);
		}
	}

/*
	an engine that is not ready, and one given nothing to do
*/
extern "C" void verif_h_misuse(uint64_t version, uint64_t what)
	{
	ascii_code_points();
	auto *engine = new JASS_anytime_api;
	std::vector<std::string> nothing, one;
	one.push_back("1 bb");
	verif_i_true("searching without an index gives nothing", engine->search(std::string("1 bb")).results_list.size() == 0 && engine->threaded_search(one, 2).size() == 0);
	verif_i_true("settings that need an index say there is none", engine->set_postings_to_process_proportion(10) == JASS_ERROR_NO_INDEX && engine->set_postings_to_process_proportion_minimum(10) == JASS_ERROR_NO_INDEX);
	verif_i_true("there are no documents without an index", engine->get_document_count() == 0);
	verif_i_true("more results than can be held are refused", engine->set_top_k(query::MAX_TOP_K + 1) == JASS_ERROR_TOO_LARGE && engine->set_top_k(query::MAX_TOP_K) == JASS_ERROR_OK && engine->get_top_k() == query::MAX_TOP_K);
	verif_i_true("an index of an unknown version is refused", engine->load_index(what == 0 ? 0 : what + 2, "") == JASS_ERROR_BAD_INDEX_VERSION);
	verif_i_true("an index that is not there is not loaded", engine->load_index(version, "") == JASS_ERROR_FAIL && engine->get_document_count() == 0);
	verif_i_true("searching without an index gives nothing", engine->search(std::string("1 bb")).results_list.size() == 0);
	make_index(version, 's', 9, 3, what, false, true);
	start(*engine, version, 3, 0, 0, true);
	verif_i_true("a second index is refused", engine->load_index(version, "") == JASS_ERROR_INDEX_ALREADY_LOADED && engine->set_top_k(4) == JASS_ERROR_INDEX_ALREADY_LOADED && engine->get_top_k() == 3);
	verif_i_true("the empty query has no results", engine->search(std::string()).results_list.size() == 0 && engine->search(std::string()).postings_processed == 0);
	verif_i_true("a query of only an id has no results", engine->search(std::string("12 ")).results_list.size() == 0);
	verif_i_true("no queries have no results", engine->threaded_search(nothing, 1)[0].results.size() == 0);
	asked = 0;
	ask("7", " ", {0, 2, 1}, nullptr, nullptr);
	segments_of(questions[0]);
	for (size_t time = 0; time < 2; time++)
		check_answer(questions[0], engine->search(std::string("7 ") + questions[0].text), 3, ~0ULL, true);
	delete engine;
	}
