// A field given on the whole lattice, in lexicographic order, and its transfer to and from the local arrays of a Scalar.
#ifndef GFIELD_H
#define GFIELD_H
#include "vh.h"
#include <complex>
typedef long double LD;
typedef std::complex<long double> cl;
inline double h01(uint64_t k) { k += 0x9E3779B97F4A7C15ull; k = (k ^ (k >> 30)) * 0xBF58476D1CE4E5B9ull; k = (k ^ (k >> 27)) * 0x94D049BB133111EBull; k ^= k >> 31; return (k >> 11) * (1.0 / 9007199254740992.0); }
struct GField {
	size_t N, Lz, T, S, Ng; int np; FieldPrecision prec; FieldType type; bool cplx; Scalar *F;
	std::vector<cl> m, v;
	void init(Scalar *f, size_t n, size_t lz, int np_, size_t ng, FieldPrecision p, FieldType t)
	{ F = f; N = n; Lz = lz; np = np_; T = Lz * np; S = N * N; Ng = ng; prec = p; type = t; cplx = t == FIELD_SAXION; m.resize(S * T); v.resize(S * T); }
	size_t at(size_t x, size_t y, size_t z) const { return (x % N) + N * (y % N) + S * (z % T); }
	size_t off() const { return commRank() * Lz * S; }
	LD rnd(LD x) const { return prec == FIELD_SINGLE ? (LD) (float) x : (LD) (double) x; }
	void round() { for (auto *a : {&m, &v}) for (auto &c : *a) c = cl(rnd(c.real()), cplx ? rnd(c.imag()) : 0); }
	void store(void *p, size_t i, cl c) const
	{
		if (cplx) { if (prec == FIELD_SINGLE) ((std::complex<float> *) p)[i] = {(float) c.real(), (float) c.imag()}; else ((std::complex<double> *) p)[i] = {(double) c.real(), (double) c.imag()}; }
		else { if (prec == FIELD_SINGLE) ((float *) p)[i] = c.real(); else ((double *) p)[i] = c.real(); }
	}
	cl load(const void *p, size_t i) const
	{
		if (cplx) { if (prec == FIELD_SINGLE) { auto q = ((const std::complex<float> *) p)[i]; return cl(q.real(), q.imag()); } auto q = ((const std::complex<double> *) p)[i]; return cl(q.real(), q.imag()); }
		return prec == FIELD_SINGLE ? (LD) ((const float *) p)[i] : (LD) ((const double *) p)[i];
	}
	// rounds the field to its precision and writes it to the local arrays; every other element of m (and v) is filled with a marker
	void put(bool folded, bool fill = true)
	{
		round();
		if (fill) { memset(F->mCpu(), 0x7f, F->eSize() * F->DataSize()); if (type == FIELD_PAXION || type == FIELD_NAXION) memset(F->vCpu(), 0x7f, F->eSize() * F->DataSize()); }
		for (size_t i = 0; i < S * Lz; i++) { store(F->mStart(), i, m[off() + i]); store(F->vStart(), i, v[off() + i]); }
		F->setFolded(false); F->setMMomSpace(false); F->setVMomSpace(false);
		if (folded) { Folder munge(F); munge(FOLD_ALL); }
	}
	std::vector<char> snap() const
	{
		size_t b = S * Lz * F->DataSize(); std::vector<char> r(2 * b);
		memcpy(r.data(), F->mStart(), b); memcpy(r.data() + b, F->vStart(), b); return r;
	}
	void refold(bool folded) { if (F->Folded() != folded) { Folder munge(F); munge(folded ? FOLD_ALL : UNFOLD_ALL); } }
};
#endif
