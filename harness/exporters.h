/*
	Exporters that keep what they are given.
*/
#pragma once
namespace JASS
	{
	/*
		exporters
	*/
	struct exported
		{
		int format;
		size_t documents;
		std::map<std::string, std::vector<std::pair<uint32_t, uint32_t>>> postings;
		std::vector<std::string> keys;
		size_t finished;
		};
	static std::vector<exported> exports;
	template <int FORMAT>
	class verif_exporter : public index_manager::delegate
		{
		public:
			size_t which;
			typedef serialise_jass_v1::jass_v1_codex jass_v1_codex;
			template <typename... MORE>
			verif_exporter(size_t documents, MORE...) : index_manager::delegate(documents), which(exports.size()) { exports.push_back({FORMAT, documents, {}, {}, 0}); }
			virtual ~verif_exporter() {}
			virtual void finish(void) { exports[which].finished++; }
			virtual void operator()(const slice &term, const index_postings &postings, compress_integer::integer document_frequency, compress_integer::integer *document_ids, index_postings_impact::impact_type *term_frequencies)
				{
				std::string name((char *)term.address(), term.size());
				verif_i_true("a term is exported once", exports[which].postings.count(name) == 0);
				verif_i_true("nothing is exported after the end", exports[which].finished == 0);
				auto &list = exports[which].postings[name];
				for (size_t k = 0; k < document_frequency; k++)
					list.push_back({document_ids[k], term_frequencies[k]});
				}
			virtual void operator()(size_t document_id, const slice &primary_key)
				{
				verif_i_true("primary keys are exported in the order of the documents", document_id == exports[which].keys.size());
				verif_i_true("nothing is exported after the end", exports[which].finished == 0);
				exports[which].keys.push_back(std::string((char *)primary_key.address(), primary_key.size()));
				}
		};
	using verif_v1 = verif_exporter<1>;
	using verif_v2 = verif_exporter<2>;
	using verif_integers = verif_exporter<4>;
	using verif_ci = verif_exporter<8>;
	using verif_forward = verif_exporter<16>;
	}

/*
	the C library's logarithm
*/
extern "C" double log(double x) throw()
	{
	if (!(x > 0))
		return 0;
	double exponent = 0;
	while (x > 1.5) { x /= 2; exponent++; }
	while (x < 0.75) { x *= 2; exponent--; }
	double y = (x - 1) / (x + 1), power = y, sum = 0;
	for (int k = 1; k < 40; k += 2, power *= y * y)
		sum += power / k;
	return 2 * sum + exponent * 0.693147180559945309417232121458;
	}
