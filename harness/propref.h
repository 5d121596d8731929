// Reference for the time step: the integrators' formulas on the global periodic lattice in long double.
#pragma once
#include "vh.h"
#include "propagator/allProp.h"
#include "utils/parse.h"

typedef long double LD;
typedef std::complex<long double> LC;

struct Par { double z0, frw, lam, lz2e, indi3, nq, zth, zrest, gam, dect, beta, L; };

inline void apply(Cosmos *c, const Par &p)
{
	c->SetFrw(p.frw); c->SetMink(false); c->SetFrw(p.frw); c->SetLambda(p.lam); c->SetLamZ2Exp(p.lz2e); c->SetIndi3(p.indi3); c->SetQcdExp(p.nq);
	c->SetZThRes(p.zth); c->SetZRestore(p.zrest); c->SetGamma(p.gam); c->SetDecTime(p.dect); c->ICData().beta = p.beta; c->SetPhysSize(p.L);
}

struct Ref {
	size_t N, Lz, n3; int Ng; FieldType type; long pot; double L; Cosmos *c; double ct; LD beta;
	int kind; // 1 neighbours, 2 spectral, 4 full spectral
	std::vector<LC> m, v; // real fields use only the real part
	std::vector<LD> PC;

	void coeffs()
	{
		switch (Ng) {
			case 1: PC = {1.L}; break;
			case 2: PC = {4.L/3, -1.L/12}; break;
			case 3: PC = {1.5L, -3.L/20, 1.L/90}; break;
			case 4: PC = {1.6L, -.2L, 8.L/315, -1.L/560}; break;
			case 5: PC = {5.L/3, -5.L/21, 5.L/126, -5.L/1008, 1.L/3150}; break;
		}
	}

	size_t at(long x, long y, long z) const { x = (x % (long) N + N) % N; y = (y % (long) N + N) % N; z = (z % (long) Lz + Lz) % Lz; return (z * N + y) * N + x; }

	// applies f(k^2) in momentum space
	template<class F> std::vector<LC> spec(const std::vector<LC> &a, F f)
	{
		std::vector<LC> b(a), t(n3);
		for (int inv = 0; inv < 2; inv++) {
			for (int dim = 0; dim < 3; dim++) {
				size_t n = dim == 2 ? Lz : N, st = dim == 0 ? 1 : dim == 1 ? N : N * N;
				std::vector<LC> w(n);
				for (size_t k = 0; k < n; k++) w[k] = std::polar(1.L, (inv ? 2 : -2) * (LD) M_PIl * (LD) k / (LD) n);
				for (size_t i = 0; i < n3; i++) {
					size_t x = i / st % n, base = i - x * st; LC s = 0;
					for (size_t k = 0; k < n; k++) s += b[base + k * st] * w[x * k % n];
					t[i] = inv ? s / (LD) n : s;
				}
				b.swap(t);
			}
			if (!inv)
				for (size_t i = 0; i < n3; i++) {
					long x = i % N, y = i / N % N, z = i / N / N;
					if (x > (long) N / 2) x -= N; if (y > (long) N / 2) y -= N; if (z > (long) Lz / 2) z -= Lz;
					LD k = 2 * M_PIl / L; b[i] *= f(k * k * (LD) (x * x + y * y + z * z));
				}
		}
		return b;
	}

	std::vector<LC> lap(const std::vector<LC> &a, bool mod = false, LD per = 0)
	{
		if (kind == 2) return spec(a, [](LD k2) { return -k2; });
		std::vector<LC> o(n3);
		LD od2 = (LD) N * N / ((LD) L * L);
		auto D = [&](LC b, LC c0) { LC d = b - c0; if (mod) d = LC(d.real() - per * roundl(d.real() / per), 0); return d; };
		for (long z = 0; z < (long) Lz; z++) for (long y = 0; y < (long) N; y++) for (long x = 0; x < (long) N; x++) {
			LC s = 0, c0 = a[at(x, y, z)];
			for (int k = 1; k <= Ng; k++)
				s += PC[k-1] * (D(a[at(x+k,y,z)], c0) + D(a[at(x-k,y,z)], c0) + D(a[at(x,y+k,z)], c0) + D(a[at(x,y-k,z)], c0) + D(a[at(x,y,z+k)], c0) + D(a[at(x,y,z-k)], c0));
			o[at(x,y,z)] = s * od2;
		}
		return o;
	}

	static LD red(LD a, LD per) { return a - per * roundl(a / per); }

	void kick(LD dzc)
	{
		const LD R = c->R(ct), Rp = c->Rp(ct), Rpp = c->Rpp(ct), mA2 = c->AxionMass2(ct), lam = c->LambdaP(ct);
		if (type == FIELD_SAXION) {
			auto l = lap(m);
			for (size_t i = 0; i < n3; i++) {
				LC p = m[i], a; LD r2 = std::norm(p);
				auto dot = [](LC a, LC b) { return a.real() * b.real() + a.imag() * b.imag(); };
				if (pot & V_EVOL_THETA && kind == 1) a = l[i];
				else a = l[i] - p * (lam * (r2 - R * R) - Rpp);
				if (!(pot & V_EVOL_RHO))  // radial evolution leaves out the QCD force
					switch (pot & V_QCD) {
						case V_QCD1: a += mA2 * R * R * R; break;
						case V_QCDV: a += mA2 * R * R * R * (LC(R, 0) - p); break;
						case V_QCD2: a += mA2 * R * R * .5L * std::conj(p); break;
						case V_QCDC: a += mA2 * R * R * R * R * LC(p.imag() * p.imag(), -p.real() * p.imag()) / powl(r2, 1.5L); break;
						case V_QCDL: a -= mA2 * R * R * R * R * std::arg(p) * LC(-p.imag(), p.real()) / r2; break;
					}
				if (pot & V_EVOL_THETA && kind == 1) {
					LC t(-p.imag(), p.real());
					v[i] = t * dot(v[i], t) / r2 + p * Rp;
					a = t * dot(a, t) / r2 + p * Rpp;
				}
				LD G = (LD) c->Gamma() / R;
				if (c->DecTime() > 0) G *= R * R / c->DecTime();
				LD mola = G * dzc / 2;
				if (pot & V_DAMP_RHO) {
					LD eps = mola / (1 + mola);
					v[i] = v[i] + a * dzc - eps * p / r2 * (2 * (dot(p, v[i]) - r2 * Rp) + dot(p, a) * dzc);
				} else if (pot & V_DAMP_ALL)
					v[i] = v[i] * (1 - mola) / (1 + mola) + a * dzc / (1 + mola);
				else
					v[i] += a * dzc;
				if (pot & V_EVOL_RHO) v[i] = p * dot(p, v[i]) / r2;
			}
			return;
		}
		bool mod = type == FIELD_AXION_MOD;
		std::vector<LC> l = kind == 4 ? std::vector<LC>(n3) : lap(m, mod, 2 * M_PIl * R);
		for (size_t i = 0; i < n3; i++) {
			LD s = m[i].real(), a = l[i].real() + Rpp * s;
			switch (pot & V_QCD) {
				case V_QCD0: break;
				case V_QCDL: a -= mA2 * R * R * s; break;
				default: a -= mA2 * R * R * R * sinl(s / R); break;
			}
			v[i] = v[i].real() + a * dzc;
		}
	}

	void drift(LD dzd, bool wrap = true)
	{
		if (kind == 4) { // free evolution of every mode over dzd
			auto m0 = spec(m, [&](LD k2) { return cosl(sqrtl(k2) * dzd); }), m1 = spec(v, [&](LD k2) { LD k = sqrtl(k2); return k == 0 ? dzd : sinl(k * dzd) / k; });
			auto v0 = spec(v, [&](LD k2) { return cosl(sqrtl(k2) * dzd); }), v1 = spec(m, [&](LD k2) { LD k = sqrtl(k2); return -k * sinl(k * dzd); });
			for (size_t i = 0; i < n3; i++) { m[i] = m0[i] + m1[i]; v[i] = v0[i] + v1[i]; }
		} else {
			LD R = c->R(ct);
			for (size_t i = 0; i < n3; i++) { m[i] += v[i] * dzd; if (wrap && type == FIELD_AXION_MOD) m[i] = red(m[i].real(), 2 * M_PIl * R); }
		}
		ct += (double) dzd;
	}

	void paxPot(LD dz)
	{
		LD u = 2 * (LD) c->Frw() - 1, R = c->R(ct), t = ct, K;
		if (fabsl(u) < 1e-9L) K = beta * t * logl((t + dz) / t) / (8 * R * R);
		else K = beta * t * (powl(t + dz, u) - powl(t, u)) / (8 * R * R * u * powl(t + dz, u));
		for (size_t i = 0; i < n3; i++) {
			LD a = m[i].real(), b = v[i].real(), g = K * (a * a + b * b);
			m[i] = cosl(g) * a - sinl(g) * b; v[i] = cosl(g) * b + sinl(g) * a;
		}
	}

	void step(double dz, const std::vector<LD> &C, const std::vector<LD> &Dd, bool first)
	{
		if (type == FIELD_NAXION) {
			for (size_t s = 0; s < C.size(); s++) {
				LD dt = dz * Dd[s], R = c->R(ct), mA = sqrtl(c->AxionMass2(ct)), u = 2 * (LD) c->Frw() - 1, t = ct;
				auto l = lap(m);
				LD K = fabsl(u) < 1e-9L ? t * beta * logl((t + dt) / t) / (4 * R * R) : t * beta * (powl(t + dt, u) - powl(t, u)) / (4 * R * R * u * powl(t + dt, u));
				for (size_t i = 0; i < n3; i++) {
					LC p = m[i] + LC(0, 1) * l[i] * dt / (2 * mA * R);
					m[i] = p * std::polar(1.L, K * std::norm(p));
				}
				ct += (double) dt;
			}
			return;
		}
		if (type == FIELD_PAXION) {
			paxPot(dz / 2);
			for (size_t s = 0; s < C.size(); s++) {
				LD R = c->R(ct), mA = sqrtl(c->AxionMass2(ct)), al = (LD) c->DlogMARDlogct(ct) - 1, t = ct;
				auto dzp = [&](LD d) { return fabsl(al) < 1e-2L ? t * log1pl(d / t) : t / al * (1 - powl(1 + d / t, -al)); };
				auto l = lap(m); LD f = dzp(dz * C[s]) / (2 * mA * R);
				for (size_t i = 0; i < n3; i++) v[i] += f * l[i];
				l = lap(v); f = dzp(dz * Dd[s]) / (2 * mA * R);
				for (size_t i = 0; i < n3; i++) m[i] -= f * l[i];
				ct += (double) (dz * Dd[s]);
			}
			paxPot(dz / 2);
			return;
		}
		size_t o = 0;
		if (first) { drift(dz * Dd[0], false); o = 1; } // an initial drift does not bring values back into their period
		for (size_t s = 0; s < C.size(); s++) { kick(dz * C[s]); drift(dz * Dd[s + o]); }
	}
};

inline void integrator(int pt, std::vector<LD> &C, std::vector<LD> &D, bool &first)
{
	first = true;
	switch (pt & PROP_MASK) {
		case PROP_RKN4: first = false;
			C = {0.1344961992774310892L, -0.2248198030794208058L, 0.7563200005156682911L, 0.3340036032863214255L};
			D = {0.5153528374311229364L, -0.085782019412973646L, 0.4415830236164665242L, 0.1288461583653841854L}; break;
		case PROP_LEAP: C = {.5, .5}; D = {.25, .5, .25}; break;
		case PROP_MLEAP: C = {.25, .25, .25, .25}; D = {.125, .25, .25, .25, .125}; break;
		case PROP_OMELYAN2: { LD chi = 0.19318332750378360L; C = {.5, .5}; D = {chi, 1 - 2 * chi, chi}; } break;
		case PROP_OMELYAN4: { LD xi = 0.1786178958448091L, lb = -0.2123418310626054L, chi = -0.06626458266981849L;
			C = {.5L * (1 - 2 * lb), lb, lb, .5L * (1 - 2 * lb)}; D = {xi, chi, 1 - 2 * (xi + chi), chi, xi}; } break;
	}
}
