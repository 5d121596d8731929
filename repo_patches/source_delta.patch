From 9b1c54b4bd5a93dc0757873c2f3e9b719de433ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 001/122] fix: sign of the V_QCD2 force in double precision
 (and in the single precision kick of low memory runs)

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index a518fd9..4381e16 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -303,7 +303,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -1608,7 +1608,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 					mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 				break;
 				case V_QCD2:
-					mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+					mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 				break;
 				case V_QCDL:
 				case V_QCDC:
-- 
2.43.0


From c3aabc6660ffcbd031ec0a42ed8d25494448b398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 002/122] fix: V_DAMP_RHO in double precision used a wrong lane
 permutation for half of the points

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index 4381e16..ca7cf02 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -380,7 +380,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
@@ -1315,7 +1315,7 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
-- 
2.43.0


From fe748b1a49215ca527416c150d24fd77b18a907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 003/122] fix: lane order of vqcd0_pd, the V_QCDC force in
 double precision

---
 include/utils/triSimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index e37961b..427099d 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -529,9 +529,9 @@ inline _MData_	opCode(md2_pd, const _MData_ &x)
 inline _MData_	opCode(vqcd0_pd, const _MData_ &x)
 {
 #if defined(__AVX__)
-	return	opCode(mul_pd, opCode(permute_pd, x, 0b00010001), opCode(permute_pd, x, 0b01010101));  //(y,x)*(y,y)
+	return	opCode(mul_pd, opCode(permute_pd, x, 0b01010101), opCode(permute_pd, x, 0b11111111));  //(y,x)*(y,y)
 #else
-	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0101));
+	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b01), opCode(shuffle_pd, x, x, 0b11));
 #endif
 }
 #undef	_MData_
-- 
2.43.0


From 443e9325108cd498646e5efb513b45f78ed3f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 004/122] fix: sign of the V_QCD2 force in the spectral saxion
 propagator

---
 include/propagator/sPropXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/sPropXeon.h b/include/propagator/sPropXeon.h
index 8cfffd7..c6e99d2 100755
--- a/include/propagator/sPropXeon.h
+++ b/include/propagator/sPropXeon.h
@@ -179,7 +179,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -400,7 +400,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 						mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+						mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_ps,
-- 
2.43.0


From f8f3be4bf787118e4ef476e329cec08fec7aae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 005/122] fix: spectral saxion propagator: V_DAMP_RHO uses the
 conformal expansion rate Rp and the decay time, as the lattice propagator
 does

---
 include/propagator/propClass.h |  3 +++
 include/propagator/sPropXeon.h | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 009cd8a..a2ca23b 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -808,6 +808,7 @@
 		ppar.ood2a  = ood2;
 		ppar.gamma  = axion->BckGnd()->Gamma();
 		ppar.frw    = axion->BckGnd()->Frw();
+		ppar.dectime= axion->BckGnd()->DecTime();
 		ppar.fMom1 = -(4.*M_PI*M_PI)/(axion->BckGnd()->PhysSize()*axion->BckGnd()->PhysSize()*((double) axion->TotalSize()));
 
 		/* Returns ghost size region in slices */
@@ -830,6 +831,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			sPropKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, d0, S, V+S, precision);
 			*z += dz*d0;
@@ -847,6 +849,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			sPropKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, S, V+S, precision);
 		}
diff --git a/include/propagator/sPropXeon.h b/include/propagator/sPropXeon.h
index c6e99d2..72ac909 100755
--- a/include/propagator/sPropXeon.h
+++ b/include/propagator/sPropXeon.h
@@ -41,6 +41,8 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 	const double gamma = ppar.gamma;
 	const double LL    = ppar.lambda;
 	const double Rpp   = ppar.Rpp;
+	const double Rp    = ppar.Rp;
+	const double deti  = ppar.dectime;
 	const double fMom  = ppar.fMom1;
 
 	if (precision == FIELD_DOUBLE)
@@ -80,7 +82,9 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 
 		const double R4 = R2*R2;
 		const double LaLa = LL*2./R4;
-		const double GGGG = gamma/R;
+		double GGGG = gamma/R;
+		if (deti > 0)
+			GGGG *= R2/deti;
 		const double mola = GGGG*dzc/2.;
 		const double damp1 = 1./(1.+mola);
 		const double damp2 = (1.-mola)*damp1;
@@ -225,13 +229,13 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 					tmp = opCode(sub_pd,
 						opCode(fmadd_pd, mMx, opCode(set1_pd, dzc), mPy),
 						opCode(mul_pd, opCode(mul_pd, opCode(set1_pd, epsi), opCode(div_pd, mel, mPx)),
-							opCode(fmadd_pd, opCode(sub_pd,vecmv,opCode(div_pd,mPx,opCode(set1_pd, R))), opCode(set1_pd, 2.0), opCode(mul_pd, vecma, opCode(set1_pd, dzc)))));
+							opCode(fmadd_pd, opCode(sub_pd,vecmv,opCode(mul_pd,mPx,opCode(set1_pd, Rp))), opCode(set1_pd, 2.0), opCode(mul_pd, vecma, opCode(set1_pd, dzc)))));
 #else
 					tmp = opCode(sub_pd,
 						opCode(add_pd, mPy, opCode(mul_pd, mMx, opCode(set1_pd, dzc))),
 						opCode(mul_pd, opCode(mul_pd, opCode(set1_pd, epsi), opCode(div_pd, mel, mPx)),
 							opCode(add_pd,
-								opCode(mul_pd, opCode(sub_pd,vecmv,opCode(div_pd,mPx,opCode(set1_pd, R))), opCode(set1_pd, 2.0)),
+								opCode(mul_pd, opCode(sub_pd,vecmv,opCode(mul_pd,mPx,opCode(set1_pd, Rp))), opCode(set1_pd, 2.0)),
 								opCode(mul_pd, vecma, opCode(set1_pd, dzc)))));
 #endif
 						break;
@@ -308,7 +312,9 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 		const float zN = gasa;
 
 		const float LaLa = LL*2.f/R4;
-		const float GGGG = gamma/Rf;
+		float GGGG = gamma/Rf;
+		if (deti > 0)
+			GGGG *= R2/deti;
 		const float mola = GGGG*dzc/2.f;
 		const float damp1 = 1.f/(1.f+mola);
 		const float damp2 = (1.f-mola)*damp1;
@@ -450,13 +456,13 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 				tmp = opCode(sub_ps,
 					opCode(fmadd_ps, mMx, opCode(set1_ps, dzc), mPy),
 					opCode(mul_ps, opCode(mul_ps, opCode(set1_ps, epsi), opCode(div_ps, mel, mPx)),
-						opCode(fmadd_ps, opCode(sub_ps,vecmv,opCode(div_ps,mPx,opCode(set1_ps, Rf))), opCode(set1_ps, 2.f), opCode(mul_ps, vecma, opCode(set1_ps, dzc)))));
+						opCode(fmadd_ps, opCode(sub_ps,vecmv,opCode(mul_ps,mPx,opCode(set1_ps, (float) Rp))), opCode(set1_ps, 2.f), opCode(mul_ps, vecma, opCode(set1_ps, dzc)))));
 #else
 				tmp = opCode(sub_ps,
 					opCode(add_ps, mPy, opCode(mul_ps, mMx, opCode(set1_ps, dzc))),
 					opCode(mul_ps, opCode(mul_ps, opCode(set1_ps, epsi), opCode(div_ps, mel, mPx)),
 						opCode(add_ps,
-							opCode(mul_ps, opCode(sub_ps,vecmv,opCode(div_ps,mPx,opCode(set1_ps, Rf))), opCode(set1_ps, 2.f)),
+							opCode(mul_ps, opCode(sub_ps,vecmv,opCode(mul_ps,mPx,opCode(set1_ps, (float) Rp))), opCode(set1_ps, 2.f)),
 							opCode(mul_ps, vecma, opCode(set1_ps, dzc)))));
 #endif
 					}
-- 
2.43.0


From afa1bc24578534c02df3c5260ba65ebc5a90cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 006/122] fix: axion propagator keeps the mass and scale factor
 of the current time in every pair of stages

---
 include/propagator/propClass.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index a2ca23b..99b7ab3 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -534,6 +534,10 @@
 
 			const double c1 = c[s], c2 = c[s+1], d1 = cD[s], d2 = cD[s+1];
 
+			ppar.massA2 = axion->AxionMassSq();
+			ppar.R      = *axion->RV();
+			ppar.Rpp    = axion->Rpp();
+
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V , precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO, 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
-- 
2.43.0


From 536b2c6bb2afbc558f613148eaf591bbc2793372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 007/122] fix: propagators kicked the same slices twice when a
 rank holds fewer than two ghost depths

---
 include/propagator/propClass.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 99b7ab3..b82afea 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -542,7 +542,7 @@
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO, 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			if (V>BO)
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			*z += dz*d1;
 			axion->updateR();
 			axion->sendGhosts(FIELD_M2, COMM_SDRV);
@@ -555,7 +555,7 @@
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			if (V>BO)
-			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			*z += dz*d2;
 			axion->updateR();
 		}
@@ -575,7 +575,7 @@
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., BO  , 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			if (V>BO)
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., V   , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 		}
 
 	}
@@ -691,7 +691,7 @@
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			if (V>BO)
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d1;
 			axion->updateR();
 
@@ -707,7 +707,7 @@
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			if (V>BO)
-			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d2;
 			axion->updateR();
 		}
@@ -728,7 +728,7 @@
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			if (V>BO)
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 		}
 
 		axion->setM2     (M2_DIRTY);
@@ -770,7 +770,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 
 			/*missing update M?*/
 			*z += dz*d0;
@@ -790,7 +790,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
 	}
@@ -1043,7 +1043,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d1;
 			axion->updateR();
 
@@ -1055,7 +1055,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d2;
 			axion->updateR();
 		}
@@ -1071,7 +1071,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
 		axion->setM2     (M2_DIRTY);
@@ -1127,7 +1127,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 
 			axion->sendGhosts(FIELD_V, COMM_SDRV);
 
@@ -1139,7 +1139,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_V, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d1;
 			axion->updateR();
 		}
@@ -1157,7 +1157,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
 
-- 
2.43.0


From 928fd8ddf68e61968e5e11d252d0bc5c77391dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 008/122] fix: low memory saxion propagator never moved the
 field

---
 include/propagator/propClass.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index b82afea..b7f6852 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -762,6 +762,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
@@ -772,18 +773,19 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, std::max(V, 2*BO), V+BO, precision, xBlock, yBlock, zBlock);
 
-			/*missing update M?*/
+			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d0;
 			axion->updateR();
 		}
 
-		if (lastStage) {
+		if (lastStage == PROP_LAST) {
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
 			ppar.lambda = axion->LambdaP();
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			const double c0 = c[nStages];
 
-- 
2.43.0


From b92911c3291ff846339a18d68ef5296591c985be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 009/122] fix: naxion and paxion self interaction is not a
 number for a R ~ ct^0.5 background

---
 include/propagator/propNaxXeon.h | 3 ++-
 include/propagator/propPaxXeon.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propNaxXeon.h b/include/propagator/propNaxXeon.h
index 15093c8..79387ff 100644
--- a/include/propagator/propNaxXeon.h
+++ b/include/propagator/propNaxXeon.h
@@ -69,7 +69,8 @@ inline	void	propagateNaxKernelXeon(const void * __restrict__ m_, void * __restri
 	// 	Kt = ct/(4.0*R*R)*log(1.0+dz*d/ct);
 	// }
 	const double u   = 2*ppar.frw - 1.0;
-	const double KKt = ct*beta*(pow(ct+dz*d,u)-pow(ct,u))/(4.0*R*R*u*pow(ct+dz*d,u));
+	const double KKt = (u == 0.0) ? ct*beta*log(1.0+dz*d/ct)/(4.0*R*R)
+				      : ct*beta*(pow(ct+dz*d,u)-pow(ct,u))/(4.0*R*R*u*pow(ct+dz*d,u));
 
 	if (precision == FIELD_DOUBLE)
 	{
diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index 9ed1901..0cd62e1 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -45,7 +45,8 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 
 	const double beta = ppar.beta;
 	const double u    = 2.0*ppar.frw - 1.0;
-	const double KKt  = ppar.sign*ppar.beta*ct*(pow(ct+dz,u)-pow(ct,u))/(8.0*R*R*u*pow(ct+dz,u));
+	const double KKt  = (u == 0.0) ? ppar.sign*ppar.beta*ct*log(1.0+dz/ct)/(8.0*R*R)
+				       : ppar.sign*ppar.beta*ct*(pow(ct+dz,u)-pow(ct,u))/(8.0*R*R*u*pow(ct+dz,u));
 	LogMsg(VERB_PARANOID,"PPX ct  %e dz  %e FRW %f R %e u %f sign %d beta %f",ct,dz,ppar.frw,R,u,ppar.sign,ppar.beta);
 	LogMsg(VERB_PARANOID,"PPX KKt %e ");
 	/* integrate in time assuming powerlaw int d z/ m_A R */
-- 
2.43.0


From 9fbe37b2d4114ed17416dad5bb0880b89b15400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 010/122] fix: spectral axion propagator left out the R''/R
 term of the equation of motion

---
 include/propagator/propClass.h      | 4 ++--
 include/propagator/sPropThetaXeon.h | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index b7f6852..9b9fba5 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -618,7 +618,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, fMom, Lx, S, V+S, precision);
+			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, axion->Rpp(), fMom, Lx, S, V+S, precision);
 			*z += dz*d[s];
 			axion->updateR();
 		}
@@ -636,7 +636,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, fMom, Lx, S, V+S, precision);
+			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, axion->Rpp(), fMom, Lx, S, V+S, precision);
 		}
 		axion->setM2     (M2_DIRTY);
 	}
diff --git a/include/propagator/sPropThetaXeon.h b/include/propagator/sPropThetaXeon.h
index 583aaae..03c29d6 100755
--- a/include/propagator/sPropThetaXeon.h
+++ b/include/propagator/sPropThetaXeon.h
@@ -27,7 +27,7 @@
 #endif
 
 void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const void * __restrict__ m2_, double *R, const double dz, const double c, const double d,
-			     const double aMass2, const double fMom, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
+			     const double aMass2, const double Rpp, const double fMom, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
 {
 	const size_t Sf = Lx*Lx;
 
@@ -87,10 +87,12 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 
 #if	defined(__AVX512F__) || defined(__FMA__)
 				acu = opCode(fnmadd_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec)), opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])));
+				acu = opCode(fmadd_pd, mel, opCode(set1_pd, Rpp), acu);
 				tmp = opCode(fmadd_pd, acu, dzcVec, vel);
 				m2l = opCode(fmadd_pd, tmp, dzdVec, mel);
 #else
 				acu = opCode(sub_pd, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])), opCode(mul_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec))));
+				acu = opCode(add_pd, acu, opCode(mul_pd, mel, opCode(set1_pd, Rpp)));
 				tmp = opCode(add_pd, vel, opCode(mul_pd, acu, dzcVec));
 				m2l = opCode(add_pd, mel, opCode(mul_pd, tmp, dzdVec));
 #endif
@@ -165,10 +167,12 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 
 #if	defined(__AVX512F__) || defined(__FMA__)
 				acu = opCode(fnmadd_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec)), opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])));
+				acu = opCode(fmadd_ps, mel, opCode(set1_ps, Rpp), acu);
 				tmp = opCode(fmadd_ps, acu, dzcVec, vel);
 				m2l = opCode(fmadd_ps, tmp, dzdVec, mel);
 #else
 				acu = opCode(sub_ps, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])), opCode(mul_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec))));
+				acu = opCode(add_ps, acu, opCode(mul_ps, mel, opCode(set1_ps, Rpp)));
 				tmp = opCode(add_ps, vel, opCode(mul_ps, acu, dzcVec));
 				m2l = opCode(add_ps, mel, opCode(mul_ps, tmp, dzdVec));
 #endif
-- 
2.43.0


From 3511d6107502cb22db68d0f6a24fce232e37966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 011/122] fix: scaleField ran past the end of real fields
 (scaled v along with m, and the heap after v)

---
 lib/scalar/scaleXeon.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/scalar/scaleXeon.cpp b/lib/scalar/scaleXeon.cpp
index fdd82b5..fbbf23a 100644
--- a/lib/scalar/scaleXeon.cpp
+++ b/lib/scalar/scaleXeon.cpp
@@ -18,10 +18,12 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 			{
 				case FIELD_M:
 				field = static_cast<complex<double>*> (sField->mCpu());
+				vol   = sField->eSize()*sField->DataSize()/sizeof(complex<double>);
 				break;
 
 				case FIELD_V:
 				field = static_cast<complex<double>*> (sField->vCpu());
+				vol   = (sField->Size()+2*sField->Surf())*sField->DataSize()/sizeof(complex<double>);
 				break;
 
 				case FIELD_M2:
@@ -56,10 +58,12 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 			{
 				case FIELD_M:
 				field = static_cast<complex<float> *> (sField->mCpu());
+				vol   = sField->eSize()*sField->DataSize()/sizeof(complex<float>);
 				break;
 
 				case FIELD_V:
 				field = static_cast<complex<float> *> (sField->vCpu());
+				vol   = (sField->Size()+2*sField->Surf())*sField->DataSize()/sizeof(complex<float>);
 				break;
 
 				case FIELD_M2:
-- 
2.43.0


From 3670b639fc9732ccc72c0ea45eff0f5a51eeaa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 012/122] fix: aligned load from an unaligned array in the full
 spectral axion propagator

---
 include/propagator/fsPropThetaXeon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/propagator/fsPropThetaXeon.h b/include/propagator/fsPropThetaXeon.h
index 53c48a8..bc3004a 100644
--- a/include/propagator/fsPropThetaXeon.h
+++ b/include/propagator/fsPropThetaXeon.h
@@ -211,7 +211,7 @@ inline	void	fsPropKernelThetaXeon(void * __restrict__ m_, void * __restrict__ v_
 			int    kx, ky, kz;
 			size_t tmp;
 
-			float pn[2*step];
+			float __attribute__((aligned(Align))) pn[2*step];
 
 			#pragma omp for schedule(static)
 			for (size_t idx=0; idx < Vol; idx += step)
-- 
2.43.0


From 9db97396a6c5685bb14ab0f705208a2c13bf3126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 013/122] fix: low memory saxion fields segfaulted on creation
 (in-place FFT plan of a missing m2)

---
 lib/scalar/scalarField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 3165347..e549a20 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -463,7 +463,8 @@ const std::complex<float> If(0.,1.);
 		AxionFFT::initFFT(prec);
 
 		/* For spectra, reducer, genConf */
-		AxionFFT::initPlan (this, FFT_PSPEC_AX,  FFT_FWDBCK, "pSpecAx");
+		if (m2 != nullptr)
+			AxionFFT::initPlan (this, FFT_PSPEC_AX,  FFT_FWDBCK, "pSpecAx");
 
 		if (fieldType == FIELD_SAXION) {
 			if (!lowmem) {
-- 
2.43.0


From f5a27ed49d299bcb8a9659e7caf66714b0599a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 014/122] fix: naxion and paxion propagators moved points twice
 when the block does not divide the rows

With a block of y rows that does not divide the number of rows the last block wrapped into the next slice,
which was then updated twice (by two threads). The other propagators already skip these points.
---
 include/propagator/propNaxXeon.h | 4 ++--
 include/propagator/propPaxXeon.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/propagator/propNaxXeon.h b/include/propagator/propNaxXeon.h
index 79387ff..2f17332 100644
--- a/include/propagator/propNaxXeon.h
+++ b/include/propagator/propNaxXeon.h
@@ -139,7 +139,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz, idxP0, idxV0;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 			{
 				X[0] = xC;
@@ -348,7 +348,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz, idxP0, idxV0;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 
 			X[0] = xC;
diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index 0cd62e1..9ab2958 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -122,7 +122,7 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 			{
 				X[0] = xC;
@@ -325,7 +325,7 @@ else
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 			{
 				X[0] = xC;
-- 
2.43.0


From 7a93e20f13ef44885a3470f883c0ac103b97c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 015/122] fix: naxion, paxion and low memory steps hung when a
 rank holds a single slice per ghost depth

The bulk region 2*BO..V is then empty with Vo > Vf, the number of slices underflowed and the block loop ran
four billion times. The other kernels already return at once.
---
 include/propagator/propNaxXeon.h | 3 +++
 include/propagator/propPaxXeon.h | 3 +++
 include/propagator/propXeon.h    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/propagator/propNaxXeon.h b/include/propagator/propNaxXeon.h
index 2f17332..d128965 100644
--- a/include/propagator/propNaxXeon.h
+++ b/include/propagator/propNaxXeon.h
@@ -45,6 +45,9 @@ inline	void	propagateNaxKernelXeon(const void * __restrict__ m_, void * __restri
 	const double beta = ppar.beta;
 	const double ood2 = dz*d*ppar.ood2a/(2.0*ppar.massA*R);
 
+	if (Vo>Vf)
+		return ;
+
 	/* In Time-spliting, the NL part can be integrated exactly
 		|P|^2 is constant
 		beta(t) can be integrated numerically
diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index 9ab2958..5cc87bc 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -43,6 +43,9 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 	const double *PC  = ppar.PC;
 	const double R    = ppar.R;
 
+	if (Vo>Vf)
+		return ;
+
 	const double beta = ppar.beta;
 	const double u    = 2.0*ppar.frw - 1.0;
 	const double KKt  = (u == 0.0) ? ppar.sign*ppar.beta*ct*log(1.0+dz/ct)/(8.0*R*R)
diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index ca7cf02..445fcb7 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -1040,6 +1040,9 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 	const double Rp    = ppar.Rp ;
 	const double deti  = ppar.dectime ;
 
+	if (Vo>Vf)
+		return ;
+
 	if (precision == FIELD_DOUBLE)
 	{
 #if	defined(__AVX512F__)
-- 
2.43.0


From afd87974001ee541889f75d782a68b7d13cd0b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 016/122] fix: block tuner divided by zero when the lattice has
 fewer than four vector rows

---
 include/utils/tunable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/tunable.h b/include/utils/tunable.h
index 5bef5df..0dc00a2 100644
--- a/include/utils/tunable.h
+++ b/include/utils/tunable.h
@@ -94,7 +94,7 @@
 						yBlock++;
 					}	while ((ySize % yBlock) != 0);
 				} else {
-					yBlock = 3;
+					yBlock = (ySize > 3) ? 3 : ySize-1;
 					do {
 						yBlock++;
 					}	while ((ySize % yBlock) != 0);
@@ -179,7 +179,7 @@
 				zMax  = Lz;
 
 				xBest = xBlock = xMax;
-				yBest = yBlock = 2;
+				yBest = yBlock = (ySize > 1) ? 2 : 1;
 				zBest = zBlock = 1;
 			} else {
 				size_t xTmp = maxThreadsPerDim(0);
-- 
2.43.0


From e24ccb665bf46ce42a2d2b72bced005cad5446f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 017/122] fix: tuning cache that is cut short, corrupt or
 cannot be written broke the run

Reading looped forever or matched values left over from the line before, entries with a zero block
were taken (division by zero) and a cache that could not be opened was written to.
---
 lib/propagator/propagator.cpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/lib/propagator/propagator.cpp b/lib/propagator/propagator.cpp
index 7b7a2a3..ba33125 100755
--- a/lib/propagator/propagator.cpp
+++ b/lib/propagator/propagator.cpp
@@ -1,5 +1,6 @@
 #include <cstdio>
 #include <cstdlib>
+#include <cstring>
 #include <memory>
 #include <chrono>
 #include <string>
@@ -557,12 +558,15 @@ LogMsg (VERB_NORMAL, "Missing tuning cache file %s, will create a new one", tune
 
 			std::string tDev(field->Device() == DEV_GPU ? "Gpu" : "Cpu");
 LogMsg(VERB_HIGH,"[tp] Reading cache file %s",tuneName);
-			do {
-				fscanf (cacheFile, "%s %d %d %lu %lu %u %u %u %u %lu\n", reinterpret_cast<char*>(&mDev), &rMpi, &rThreads, &rLx, &rLz, &fType, &rBx, &rBy, &rBz, &Nghost);
+			// Only complete lines are entries: a run that was interrupted may have left part of one
+			char line[1024];
+			while (!found && fgets(line, sizeof(line), cacheFile) != nullptr) {
+				if (strchr(line, '\n') == nullptr || sscanf (line, "%7s %d %d %lu %lu %u %u %u %u %lu", mDev, &rMpi, &rThreads, &rLx, &rLz, &fType, &rBx, &rBy, &rBz, &Nghost) != 10)
+					continue;
 				std::string fDev(mDev);
 LogMsg(VERB_HIGH,"[tp] Read: MPI %d, threads %d, Ng %d, Lx,Lz (%d,%d) rBx,y,z (%d,%d,%d)  ",rMpi, rThreads, Nghost, rLx, rLz, rBx, rBy, rBz);
 				if (rMpi == commSize() && rThreads == omp_get_max_threads() && rLx == field->Length() && rLz == field->Depth() && fType == myField && fDev == tDev && Nghost == field->getNg()) {
-					if ((field->Device() == DEV_CPU && (rBx <= prop->BlockX() && rBy <= field->Surf()/prop->BlockX() && rBz <= field->Depth())) ||
+					if ((field->Device() == DEV_CPU && (rBx <= prop->BlockX() && rBy > 0 && rBy <= field->Surf()/prop->BlockX() && rBz > 0 && rBz <= field->Depth())) ||
 					    (field->Device() == DEV_GPU	&& (rBx <= prop->MaxBlockX() && rBy <= prop->MaxBlockY() && rBz <= prop->MaxBlockZ()))) {
 						found = true;
 LogMsg(VERB_HIGH,"[tp] X!!");
@@ -575,7 +579,7 @@ LogMsg(VERB_HIGH,"[tp] update best block!!");
 						prop->UpdateBestBlock();
 					}
 				}
-			}	while(!feof(cacheFile) && !found);
+			}
 
 			fclose (cacheFile);
 LogMsg(VERB_HIGH,"[tp] cache file closed!!");
@@ -753,19 +757,11 @@ LogMsg (VERB_HIGH,   "[tp] Start tuning ... ");
 		}
 		// We distinguish between opening and appending a new line
 		if (!newFile) {
-			if ((cacheFile = fopen(tuneName, "a")) == nullptr) {
+			if ((cacheFile = fopen(tuneName, "a")) == nullptr)
 				LogError ("Error: can't open cache file, can't save tuning results");
-				commSync();
-				prof.stop();
-				prof.add(prop->Name(), 0., 0.);
-			}
 		} else {
-			if ((cacheFile = fopen(tuneName, "w")) == nullptr) {
+			if ((cacheFile = fopen(tuneName, "w")) == nullptr)
 				LogError ("Error: can't create cache file, can't save tuning results");
-				commSync();
-				prof.stop();
-				prof.add(prop->Name(), 0., 0.);
-			}
 		}
 
 		unsigned int fType ;
@@ -779,9 +775,11 @@ LogMsg (VERB_HIGH,   "[tp] Start tuning ... ");
 			fType = 3;
 
 		std::string myDev(field->Device() == DEV_GPU ? "Gpu" : "Cpu");
-		fprintf (cacheFile, "%s %d %d %lu %lu %u %u %u %u %lu\n", myDev.c_str(), commSize(), omp_get_max_threads(), field->Length(), field->Depth(),
-									fType, prop->TunedBlockX(), prop->TunedBlockY(), prop->TunedBlockZ(), field->getNg());
-		fclose  (cacheFile);
+		if (cacheFile != nullptr) {
+			fprintf (cacheFile, "%s %d %d %lu %lu %u %u %u %u %lu\n", myDev.c_str(), commSize(), omp_get_max_threads(), field->Length(), field->Depth(),
+										fType, prop->TunedBlockX(), prop->TunedBlockY(), prop->TunedBlockZ(), field->getNg());
+			fclose  (cacheFile);
+		}
 	}
 LogMsg (VERB_NORMAL, "\n");
 
-- 
2.43.0


From 3e3c1140a81425a8efc14d0b1ba32b891a069902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 018/122] fix: tuning cache entries of the angle field with
 modulus had an undefined field type

---
 lib/propagator/propagator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/propagator/propagator.cpp b/lib/propagator/propagator.cpp
index ba33125..59c21e0 100755
--- a/lib/propagator/propagator.cpp
+++ b/lib/propagator/propagator.cpp
@@ -553,6 +553,8 @@ LogMsg (VERB_NORMAL, "Missing tuning cache file %s, will create a new one", tune
 				myField = 2;
 			else if (field->Field() == FIELD_PAXION)
 				myField = 3;
+			else
+				myField = 4;
 
 			char	     mDev[8];
 
@@ -773,6 +775,8 @@ LogMsg (VERB_HIGH,   "[tp] Start tuning ... ");
 			fType = 2;
 		else if (field->Field() == FIELD_PAXION)
 			fType = 3;
+		else
+			fType = 4;
 
 		std::string myDev(field->Device() == DEV_GPU ? "Gpu" : "Cpu");
 		if (cacheFile != nullptr) {
-- 
2.43.0


From 33ae7d9c914027e37594de12ce7c3ff151afd02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:45 +0000
Subject: [PATCH 019/122] fix: string detection read shifted planes when the
 halo is deeper than one slice

---
 lib/strings/stringXeon.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/strings/stringXeon.cpp b/lib/strings/stringXeon.cpp
index eab9ffc..a1b7c25 100755
--- a/lib/strings/stringXeon.cpp
+++ b/lib/strings/stringXeon.cpp
@@ -1046,5 +1046,7 @@ StringData	stringCpu	(Scalar *field)
 	const size_t V = field->Size();
 	field->exchangeGhosts(FIELD_M);
 	field->setSD(SD_MAP);
-	return (stringKernelXeon(field->mCpu(), field->Length(), field->Depth(), S, V+S, field->rLength(), field->rDepth(), field->Precision(), field->sData()));
+	// The kernel takes the data with exactly one ghost slice before the lattice, whatever the depth of the halo
+	const char *m  = static_cast<const char *>(field->mStart()) - S*field->DataSize();
+	return (stringKernelXeon(m, field->Length(), field->Depth(), S, V+S, field->rLength(), field->rDepth(), field->Precision(), field->sData()));
 }
-- 
2.43.0


From 22e9817de07563d00d8e284c6fa463278c69fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 020/122] fix: string length dropped one of three segments in
 cells pierced by three strings

---
 lib/strings/length.cpp | 60 +++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index aef5713..a04258b 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -233,49 +233,49 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 						// three strings are piercing the cube
 						// we consider 15 possible connection patterns and average over them
 						double dl1 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					             + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)));
+					             + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)))
 						  				 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl2 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)))
 					 	  				 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl3 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)))
 					 		  			 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 				    double dl4 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl5 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl6 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 					 	  				 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 					  double dl7 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl8 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl9 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 					 	  				 + sqrt((pos_x.at(2)-pos_x.at(4))*(pos_x.at(2)-pos_x.at(4))+(pos_y.at(2)-pos_y.at(4))*(pos_y.at(2)-pos_y.at(4))+(pos_z.at(2)-pos_z.at(4))*(pos_z.at(2)-pos_z.at(4)));
 					  double dl10 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-					 	  				  + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+					 	  				  + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 					 		  			  + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl11 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl12 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  double dl13 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 						  					+ sqrt((pos_x.at(4)-pos_x.at(3))*(pos_x.at(4)-pos_x.at(3))+(pos_y.at(4)-pos_y.at(3))*(pos_y.at(4)-pos_y.at(3))+(pos_z.at(4)-pos_z.at(3))*(pos_z.at(4)-pos_z.at(3)));
 					  double dl14 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  			  + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
 					  double dl15 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 						  				  + sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  length += (dl1 + dl2 + dl3 + dl4 + dl5 + dl6 + dl7 + dl8 + dl9 + dl10 + dl11 + dl12 + dl13 + dl14 + dl15)/15.;
 				  }
@@ -601,49 +601,49 @@ StringData	stringlength2	(Scalar *field, StringData strDen_in, StringMeasureType
 						// three strings are piercing the cube
 						// we consider 15 possible connection patterns and average over them
 						double dl1 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)));
+						  				 + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl2 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
+						  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl3 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
+						  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)))
 						  				 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 					  double dl4 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 						  				 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					 double dl5 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					  					 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					  					 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 						  				 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl6 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 					  double dl7 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl8 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl9 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(2)-pos_x.at(4))*(pos_x.at(2)-pos_x.at(4))+(pos_y.at(2)-pos_y.at(4))*(pos_y.at(2)-pos_y.at(4))+(pos_z.at(2)-pos_z.at(4))*(pos_z.at(2)-pos_z.at(4)));
 					  double dl10 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl11 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 				  	double dl12 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-					   						+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					   						+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 						  					+ sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  double dl13 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(4)-pos_x.at(3))*(pos_x.at(4)-pos_x.at(3))+(pos_y.at(4)-pos_y.at(3))*(pos_y.at(4)-pos_y.at(3))+(pos_z.at(4)-pos_z.at(3))*(pos_z.at(4)-pos_z.at(3)));
 					  double dl14 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
 					  double dl15 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  length += (dl1 + dl2 + dl3 + dl4 + dl5 + dl6 + dl7 + dl8 + dl9 + dl10 + dl11 + dl12 + dl13 + dl14 + dl15)/15.;
 				  }
-- 
2.43.0


From e743941fbd797210a85753ea914d0416d27da981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 021/122] fix: string length and velocity ignored the
 plaquettes beyond the last slice of a rank

---
 lib/strings/length.cpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index a04258b..03c7565 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -88,12 +88,8 @@ void setCross (std::complex<double> m, std::complex<double> mu, std::complex<dou
 // Function that calculates the length of strings
 // -----------------------------------------------------
 
-	/* As it is written, it requires string information from
-	the slice forward in z, but stringData is not ghosted,
-	and so the last slice cannot be computed reliably,
-	the plaquette XY at Z+1 does not exist in the desired rank
-	THIS NEEDS TO BE FIXED
-	The current PATCH simply ignores the problematic plaquettes */
+	/* The slice forward in z is required, but neither stringData nor v is ghosted,
+	so the first slices of the next rank are copied for the last slice */
 
 template<typename Float>
 StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType strmeas)
@@ -141,6 +137,10 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 	char *strdaa = static_cast<char *>(static_cast<void *>(field->sData()));
 	std::complex<Float> *ma     = static_cast<std::complex<Float>*>(field->mStart());
 
+	std::vector<char> strnext(Lx*Lx);
+	field->sendGeneral(COMM_SDRV, Lx*Lx, MPI_BYTE, strdaa, strnext.data(), strdaa, strdaa);
+	field->sendGeneral(COMM_WAIT, Lx*Lx, MPI_BYTE, strdaa, strnext.data(), strdaa, strdaa);
+
 	if(strmeas & STRMEAS_LENGTH) {
 		LogMsg	(VERB_HIGH, "[stringlength] Measure length");
 
@@ -205,9 +205,9 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 						pos_y.push_back(iy + 1.);
 						pos_z.push_back(rank*Lz + iz + du[0]);
 					}
-					/* In the case iz = Lz-1 this would segfault */
-					if ( iz < Lz - 1 )
-					if (strdaa[izM] & STRING_XY) {
+					/* In the case iz = Lz-1 the slice forward belongs to the next rank */
+					char strfwd = (iz < Lz - 1) ? strdaa[izM] : strnext[ix + yi];
+					if (strfwd & STRING_XY) {
 						double du[2];
 						setCross(ma[izM],ma[izxM],ma[iyzM],ma[ixyzM],du);
 						pos_x.push_back(ix + du[0]);
@@ -314,6 +314,10 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 
 		std::complex<Float> *va     = static_cast<std::complex<Float>*>(field->vCpu());
 
+		std::vector<std::complex<Float>> vnext(Lx*Lx);
+		field->sendGeneral(COMM_SDRV, Lx*Lx*sizeof(vnext[0]), MPI_BYTE, va, vnext.data(), va, va);
+		field->sendGeneral(COMM_WAIT, Lx*Lx*sizeof(vnext[0]), MPI_BYTE, va, vnext.data(), va, va);
+
 		#pragma omp parallel for reduction(+:gamma,gamma2,vel,vel2)
 		for (size_t iz=0; iz < Lz; iz++) {
 			size_t zi = Lx*Lx*iz ;
@@ -332,6 +336,10 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 
 					if((strdaa[idx] & STRING_ONLY) != 0)
 					{
+						bool last = (iz == Lz - 1);
+						std::complex<Float> vizM  = last ? vnext[ix + yi]                   : va[izM];
+						std::complex<Float> viyzM = last ? vnext[ix + yp]                   : va[iyzM];
+						std::complex<Float> vizxM = last ? vnext[((ix + 1) % Lx) + yi]      : va[izxM];
 						double g2v2a, g2v2b, g2v2c, g2v2d;
 						std::complex<double> phia = ma[idx]/Rscale;
 						std::complex<double> dphia = (va[idx]-Hc*ma[idx])/(Rscale*Rscale);
@@ -364,8 +372,8 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 							std::complex<double> phic = ma[izM]/Rscale;
 							std::complex<double> phid = ma[iyzM]/Rscale;
 							std::complex<double> dphib = (va[iyM]-Hc*ma[iyM])/(Rscale*Rscale);
-							std::complex<double> dphic = (va[izM]-Hc*ma[izM])/(Rscale*Rscale);
-							std::complex<double> dphid = (va[iyzM]-Hc*ma[iyzM])/(Rscale*Rscale);
+							std::complex<double> dphic = (vizM-Hc*ma[izM])/(Rscale*Rscale);
+							std::complex<double> dphid = (viyzM-Hc*ma[iyzM])/(Rscale*Rscale);
 							g2v2b = std::abs(dphib)*std::abs(dphib)*(1.+std::abs(phib)*std::abs(phib)/(8.*c*c))/(mssq*c*c)
 					          + std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))*std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))/(16.*mssq*c*c*c*c);
 					    g2v2c = std::abs(dphic)*std::abs(dphic)*(1.+std::abs(phic)*std::abs(phic)/(8.*c*c))/(mssq*c*c)
@@ -383,9 +391,9 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 							std::complex<double> phib = ma[izM]/Rscale;
 							std::complex<double> phic = ma[ixM]/Rscale;
 							std::complex<double> phid = ma[izxM]/Rscale;
-							std::complex<double> dphib = (va[izM]-Hc*ma[izM])/(Rscale*Rscale);
+							std::complex<double> dphib = (vizM-Hc*ma[izM])/(Rscale*Rscale);
 							std::complex<double> dphic = (va[ixM]-Hc*ma[ixM])/(Rscale*Rscale);
-							std::complex<double> dphid = (va[izxM]-Hc*ma[izxM])/(Rscale*Rscale);
+							std::complex<double> dphid = (vizxM-Hc*ma[izxM])/(Rscale*Rscale);
 							g2v2b = std::abs(dphib)*std::abs(dphib)*(1.+std::abs(phib)*std::abs(phib)/(8.*c*c))/(mssq*c*c)
 					          + std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))*std::abs(std::conj(phib)*dphib+phib*std::conj(dphib))/(16.*mssq*c*c*c*c);
 					    g2v2c = std::abs(dphic)*std::abs(dphic)*(1.+std::abs(phic)*std::abs(phic)/(8.*c*c))/(mssq*c*c)
-- 
2.43.0


From eab9c0a2a7391d1251ed5ca62fa7528d3163462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 022/122] fix: conformal Hubble rate vanished for frw=1, the
 radiation era

---
 lib/scalar/scalarField.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index e549a20..50c9f52 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1200,11 +1200,8 @@ double  Scalar::Rpp  ()
 
 double  Scalar::HubbleConformal  ()
 {
-	// R'/R = frw/z
-	// since we have R=z^frw
-	//except in the case where frw = 0,1
-	int fr = (int) bckgnd->Frw();
-	double Rp = (fr == 0 || fr == 1) ? 0.0 : (bckgnd->Frw())/(*zV());
+	// R'/R
+	double Rp = bckgnd->Rp(*zV());
 	LogMsg(VERB_PARANOID,"[sca:HC] %.2e (legacy!)",Rp);
 	return Rp ;
 }
-- 
2.43.0


From ef8562b55ae315b3f0f1455e8769e6c66e04f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 023/122] fix: string energies were divided by Lx^3 on lattices
 that are not cubes

---
 lib/strings/length.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index 03c7565..1f56337 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -950,10 +950,10 @@ StringEnergyData stringenergy (Scalar *field)
 
 	strE.rho_a   = rhoa_sum/nout_sum;
 	strE.rho_s   = rhos_sum/nout_sum;
-	strE.rho_str = rhotot_sum/(Lx*Lx*Lx) - strE.rho_a - strE.rho_s;
-	strE.rho_a_Vil = rhoaV_sum/(Lx*Lx*Lx);
-	strE.rho_s_Vil = rhosV_sum/(Lx*Lx*Lx);
-	strE.rho_str_Vil = rhotot_sum/(Lx*Lx*Lx) - strE.rho_a_Vil - strE.rho_s_Vil;
+	strE.rho_str = rhotot_sum/field->TotalSize() - strE.rho_a - strE.rho_s;
+	strE.rho_a_Vil = rhoaV_sum/field->TotalSize();
+	strE.rho_s_Vil = rhosV_sum/field->TotalSize();
+	strE.rho_str_Vil = rhotot_sum/field->TotalSize() - strE.rho_a_Vil - strE.rho_s_Vil;
 	strE.nout = nout_sum;
 
 	commSync();
-- 
2.43.0


From efa01bbaf12390eeb24688e7cfaa791f46ca3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 024/122] fix: double precision saxion energies: 1/R^2 was
 truncated to an integer and <rho> was not stored

---
 lib/energy/energyXeon.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index f3379d1..43f6747 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -47,7 +47,7 @@ void	energyKernelXeon(const void * __restrict__ m_, const void * __restrict__ v_
 	const size_t Vo     = ppar.Vo;
 	const size_t Vf     = ppar.Vf;
 	const size_t Vt     = ppar.Vt;
-	const size_t iR2    = 1./R/R;
+	const double iR2    = 1./R/R;
 
 	const size_t Sf = Lx*Lx;
 
@@ -643,6 +643,7 @@ if (emask & EN_ENE){
 		eRes[TH_POT] = Vth  *zQ;
 		eRes[RH_KIN] = Krho *.5*iR2;
 		eRes[TH_KIN] = Kth  *.5*iR2;
+		eRes[RH_RHO] = Rrho;
 
 		eRes[RH_GRXM] = GxrhoM*o2;
 		eRes[TH_GRXM] = GxthM *o2;
-- 
2.43.0


From 78efe806f2bc580f90ca39a0c649b1f4b0e75401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 025/122] fix: RrhoM and nummask were missing in the OpenMP
 reduction of the double precision energies

---
 lib/energy/energyXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 43f6747..8c75fb7 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -135,7 +135,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 
 			double tmpS[2*step] __attribute__((aligned(Align)));
 
-			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho)
+			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho,RrhoM,nummask)
 			for (size_t idx = Vo; idx < Vf; idx += step)
 			{
 				size_t X[3], idxPx, idxMx, idxPy, idxMy, idxPz, idxMz, idxP0, idxV0;
-- 
2.43.0


From dc9d7ffb66a586f7a95738f3955e4dea232cb67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 026/122] fix: V_QCD2 energies used |Phi|^2/R^2 where they need
 Re(Phi)^2

---
 lib/energy/energyXeon.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 8c75fb7..181c81a 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -429,8 +429,8 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 						mCg = opCode(mul_pd, hVec, opCode(md2_pd, opCode(mul_pd,mTp,mTp) ));
 					break;
 					case V_QCD2:
-						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, Gry, Grz)));
+						/* (1 - Re(Phi)^2/|Phi|^2)/2 = */
+						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, opCode(mul_pd, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
@@ -1087,8 +1087,8 @@ if (emask & EN_ENE){
 						mCg = opCode(mul_ps, hVec, opCode(md2_ps, opCode(mul_ps,mTp,mTp) ));
 					break;
 					case V_QCD2:
-						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, Gry, Grz)));
+						/* (1 - Re(Phi)^2/|Phi|^2)/2 = */
+						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, opCode(mul_ps, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
-- 
2.43.0


From ba6b92a68709f7d7bcbfbf84797505ca9d0d4a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 027/122] fix: V_QCD0 has no axion potential energy, an
 uninitialised or cosine value was reported

---
 lib/energy/energy.cpp     | 2 +-
 lib/energy/energyXeon.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/energy/energy.cpp b/lib/energy/energy.cpp
index 5b32730..394d6ba 100755
--- a/lib/energy/energy.cpp
+++ b/lib/energy/energy.cpp
@@ -43,7 +43,7 @@ class	Energy : public Tunable
 };
 
 	Energy::Energy(Scalar *field, const double LL, const double delta, void *eRes, VqcdType pot, const double sh, const EnType emap) : field(field),
-	Vt(field->TotalSize()), delta2(delta*delta), aMass2(field->AxionMassSq()), eRes(eRes), pot(pot), fType(field->Field()), shift(sh),
+	Vt(field->TotalSize()), delta2(delta*delta), aMass2((pot & V_QCD) == V_QCD0 ? 0. : field->AxionMassSq()), eRes(eRes), pot(pot), fType(field->Field()), shift(sh),
 	LL(field->LambdaP()), mapmask(emap)
 {
 }
diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 181c81a..2b54300 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -440,7 +440,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 					case V_QCDL:
 						/*TODO*/
 					case V_QCD0:
-						// mCg = one; // whatever mCg is will be multiplied by zero;
+						mCg = opCode(sub_pd, one, one); // no QCD potential
 					break;
 				}
 
@@ -1098,7 +1098,7 @@ if (emask & EN_ENE){
 					case V_QCDL:
 						/*TODO*/
 					case V_QCD0:
-						// mCg = one; // whatever mCg is will be multiplied by zero;
+						mCg = opCode(sub_ps, one, one); // no QCD potential
 					break;
 				}
 
-- 
2.43.0


From 8fad5bf5a73da51e28e0d3000fad6ceba87e196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 028/122] fix: paxion gradient energy was divided by R^2 twice
 (rho_Grad goes as R^-5)

---
 lib/energy/energyPaxionXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index e01d4f6..2a5f679 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -31,7 +31,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 {
 
 	const double R     = ppar.R;
-	const double ood2a = ppar.ood2a/R/R;
+	const double ood2a = ppar.ood2a;
 	const double beta  = ppar.beta;
 	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Ng*Vo;
 
-- 
2.43.0


From 26d334d015bbd5cc5d25cd5960e3f07f376e733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 029/122] fix: paxion energy map wrote beyond m2 with more than
 one ghost layer

---
 lib/energy/energyPaxionXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index 2a5f679..18d917d 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -33,7 +33,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 	const double R     = ppar.R;
 	const double ood2a = ppar.ood2a;
 	const double beta  = ppar.beta;
-	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Ng*Vo;
+	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Vo;
 
 	double * __restrict__ eRes = (double * __restrict__) eRes_;
 	double gxC = 0., gyC = 0., gzC = 0., ntC = 0., ptC = 0.;
-- 
2.43.0


From 4b3948bba11c5585480e2d23d3749b5de4102e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 030/122] fix: axion kinetic energy used R'/R = frw/ct also for
 tabulated cosmologies

---
 lib/energy/energyThetaXeon.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/energy/energyThetaXeon.cpp b/lib/energy/energyThetaXeon.cpp
index 317dbc4..ab58655 100755
--- a/lib/energy/energyThetaXeon.cpp
+++ b/lib/energy/energyThetaXeon.cpp
@@ -28,7 +28,7 @@
 
 template<const bool map, const bool wMod>
 void	energyThetaKernelXeon(const void * __restrict__ m_, const void * __restrict__ v_, void * __restrict__ m2_,
-	double *R, double *z, double frw, const double ood2, const double aMass2,
+	double *R, const double Rp, const double ood2, const double aMass2,
 			 const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, void * __restrict__ eRes_)
 {
 	const size_t Sf = Lx*Lx;
@@ -56,9 +56,8 @@ void	energyThetaKernelXeon(const void * __restrict__ m_, const void * __restrict
 
 		/* computes physical, not comoving enegy density */
 		const double zR  = *R;
-		const double zz  = *z;
 		const double iz  = 1.0/zR;
-		const double d1  = frw*zR/zz;
+		const double d1  = Rp*zR;
 		const double iz2 = iz*iz;
 		const double iz4 = iz2*iz2;
 		const double zQ  = aMass2;
@@ -279,9 +278,8 @@ void	energyThetaKernelXeon(const void * __restrict__ m_, const void * __restrict
 		/* computes physical, not comoving enegy density */
 
 		const float zR  = *R;
-		const float zz  = *z;
 		const float iz  = 1.f/zR;
-		const float d1  = frw*zR/zz;
+		const float d1  = Rp*zR;
 		const float iz2 = iz*iz;
 		const float iz4 = iz2*iz2;
 		const float zQ = aMass2;
@@ -495,8 +493,7 @@ void	energyThetaCpu	(Scalar *axionField, const double delta2, const double aMass
 {
 	const double ood2 = 0.25/delta2;
 	double *R  = axionField->RV();
-	double *z  = axionField->zV();
-	double frw = axionField->BckGnd()->Frw();
+	double Rp  = axionField->BckGnd()->Rp(*axionField->zV());
 
 	const FieldPrecision precision = axionField->Precision();
 	const size_t Lx = axionField->Length();
@@ -507,11 +504,11 @@ void	energyThetaCpu	(Scalar *axionField, const double delta2, const double aMass
 
 	switch	(map) {
 		case	true:
-			energyThetaKernelXeon<true, mod>(axionField->mCpu(), axionField->vCpu(), axionField->m2Cpu(), R, z, frw, ood2, aMass2, Lx, Vo, Vf, precision, eRes);
+			energyThetaKernelXeon<true, mod>(axionField->mCpu(), axionField->vCpu(), axionField->m2Cpu(), R, Rp, ood2, aMass2, Lx, Vo, Vf, precision, eRes);
 			break;
 
 		case	false:
-			energyThetaKernelXeon<false,mod>(axionField->mCpu(), axionField->vCpu(), axionField->m2Cpu(), R, z, frw, ood2, aMass2, Lx, Vo, Vf, precision, eRes);
+			energyThetaKernelXeon<false,mod>(axionField->mCpu(), axionField->vCpu(), axionField->m2Cpu(), R, Rp, ood2, aMass2, Lx, Vo, Vf, precision, eRes);
 			break;
 	}
 }
-- 
2.43.0


From d71bfe89e7e56a65fac625133d6f232606caf272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 031/122] fix: Rp and Rpp ignored the matter term that R
 includes when gravity is on

---
 lib/cosmos/cosmos.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index 632cc03..bfaad7d 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -178,6 +178,9 @@ double  Cosmos::Rpp  (const double ct)
   double rpp;
   if (ueCosm)
     rpp = sRpp(ct)/(ct*ct);
+  else if (frw == 1 && icdatastruc.grav > 0.0)
+    // R = ct(1+grav ct/4), see R()
+    rpp = 0.5*icdatastruc.grav/(ct*(1. + 0.25*ct*icdatastruc.grav));
   else
   {
     // R = ct^frw
@@ -196,6 +199,10 @@ double  Cosmos::Rp  (const double ct)
     rp = (R(ct+1.e-3)-R(ct-1.e-3))/(2.e-3 * R(ct));
     LogMsg(VERB_NORMAL,"[Cos] calculating Rp =R(ct+e)-R(ct-e)/2eR = %e",rp);
   }
+  else if (frw == 1 && icdatastruc.grav > 0.0) {
+    // R = ct(1+grav ct/4), see R()
+    rp = (1. + 0.5*ct*icdatastruc.grav)/(ct*(1. + 0.25*ct*icdatastruc.grav));
+  }
   else {
   // R = ct^frw
   // R'/R = frw/ct
-- 
2.43.0


From 03e66a484025f56d7d367a1250da0306bd06b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 032/122] fix: cDensityMap overflowed its buffer, energy stores
 23 values for a saxion

---
 lib/energy/dContrast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/dContrast.cpp b/lib/energy/dContrast.cpp
index aabe1aa..4b60e4f 100755
--- a/lib/energy/dContrast.cpp
+++ b/lib/energy/dContrast.cpp
@@ -92,7 +92,7 @@ void	dContrast	(Scalar *axion, size_t &rSize, bool &rhoMap) {
 void	cDensityMap	(Scalar *axion, size_t rSize, bool rhoMap) {
 
 	if (axion->m2Status() != M2_ENERGY) {
-		double eRes[10];
+		double eRes[32];
 		energy(axion, eRes, EN_MAP, 0.);
 	}
 
-- 
2.43.0


From 88026636618ac8f090e5a83a02c6bc041fb7ff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 033/122] fix: rho density map read at the offset of one ghost
 layer whatever the number of layers

---
 lib/energy/dContrast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/dContrast.cpp b/lib/energy/dContrast.cpp
index 4b60e4f..646aa98 100755
--- a/lib/energy/dContrast.cpp
+++ b/lib/energy/dContrast.cpp
@@ -56,7 +56,7 @@ void	dContrast	(Scalar *axion, size_t &rSize, bool &rhoMap) {
 	writeDensity(axion, MAP_THETA, eMax, eMin);
 
 	if (axion->Field() == FIELD_SAXION && rhoMap) {
-		m2 += axion->Size() + axion->Surf()*2;
+		m2 += axion->eSize();
 
 		eMax = find<FIND_MAX, Float>(m2, axion->rSize(), [] (Float x) { return (double) x; });
 		eMin = find<FIND_MIN, Float>(m2, axion->rSize(), [] (Float x) { return (double) x; });
-- 
2.43.0


From 19713cd6679fbbc5c08325345efe676a3eedcd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 034/122] fix: energy touched 23 result values for fields that
 report five

---
 lib/energy/energy.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/energy/energy.cpp b/lib/energy/energy.cpp
index 394d6ba..a024c97 100755
--- a/lib/energy/energy.cpp
+++ b/lib/energy/energy.cpp
@@ -1,4 +1,5 @@
 #include <memory>
+#include <algorithm>
 #include "scalar/scalarField.h"
 #include "scalar/folder.h"
 #include "enum-field.h"
@@ -195,16 +196,15 @@ void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 	trackFree(eTmp);
 
 	const double Vt  = 1./(field->TotalSize());
-	const double Vt2 = 1./( static_cast<double*>(eRes)[22] );
-	const double mi  = 1.*( static_cast<double*>(eRes)[22] );
-
-	#pragma unroll
-	for (int i=0; i<11; i++)
+	for (int i=0; i<std::min(size, 11); i++)
 		static_cast<double*>(eRes)[i] *= Vt;
 
-	#pragma unroll
-	for (int i=11; i<22; i++)
-		static_cast<double*>(eRes)[i] *= Vt2;
+	if (size > 22) {
+		const double Vt2 = 1./( static_cast<double*>(eRes)[22] );
+
+		for (int i=11; i<22; i++)
+			static_cast<double*>(eRes)[i] *= Vt2;
+	}
 
 	prof.stop();
 
-- 
2.43.0


From 05ceaa935518fde960d314f61172fcf160a8d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:57 +0000
Subject: [PATCH 035/122] fix: masked <rho> in double precision (AVX) added
 values beyond the vector

---
 lib/energy/energyXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 2b54300..b2ff3be 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -604,7 +604,7 @@ if (emask & EN_ENE){
 								KthM   += tmpS[1] + tmpS[3];
 
 								opCode(store_pd, tmpS, opCode(mul_pd,Frho,Mask));
-								RrhoM  +=  tmpS[0] + tmpS[2] + tmpS[4] + tmpS[6];
+								RrhoM  +=  tmpS[0] + tmpS[2];
 #else
 								opCode(store_pd, tmpS, opCode(mul_pd,tGx,Mask));
 								GxrhoM +=  tmpS[0];
-- 
2.43.0


From 9f98448bf957f4f6943c0afdcce87f45d7a74ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 036/122] fix: double precision paxion energy map was shifted
 with more than one ghost layer

---
 lib/energy/energyPaxionXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index 18d917d..ea9542a 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -95,7 +95,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 					X[2] = tmi/YC;
 					X[1] = tmi - X[2]*YC;
 					X[0] = idx - tmi*XC;
-					X[2]--;	// Removes ghosts
+					X[2] -= Ng;	// Removes ghosts
 				}
 
 				if (X[0] == XC-step)
-- 
2.43.0


From cfea632cbf8d779813d74b61209179ce754e42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 037/122] fix: mendTheta shifted the velocity by 2 pi whatever
 the expansion, m + 2 pi R goes with v + 2 pi R'

---
 lib/scalar/mendThetaXeon.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/lib/scalar/mendThetaXeon.cpp b/lib/scalar/mendThetaXeon.cpp
index 9f229fc..0026187 100755
--- a/lib/scalar/mendThetaXeon.cpp
+++ b/lib/scalar/mendThetaXeon.cpp
@@ -36,7 +36,7 @@
 
 /* Uses m2 as aux field to store F and B on a line/line basis
 distribution is n-th thread nth 4 lines of m2 */
-inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, void * __restrict__ s_, const double R, const size_t Lx, const size_t Lz, const size_t Sf, FieldPrecision precision)
+inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, void * __restrict__ s_, const double R, const double Rp, const size_t Lx, const size_t Lz, const size_t Sf, FieldPrecision precision)
 {
 	size_t countF = 0;
 	size_t countB = 0;
@@ -80,7 +80,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 		const _MData_ pVec  = opCode(set1_pd, +zP);
 		const _MData_ mVec  = opCode(set1_pd, -zP);
-		const _MData_ vVec  = opCode(set1_pd, 2.*M_PI);
+		const _MData_ vVec  = opCode(set1_pd, 2.*M_PI*Rp);
 		const _MData_ cVec  = opCode(set1_pd, zP*2.);
 
 		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
@@ -433,7 +433,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 		const _MData_ pVec  = opCode(set1_ps, +zP);
 		const _MData_ mVec  = opCode(set1_ps, -zP);
-		const _MData_ vVec  = opCode(set1_ps, 2.f*M_PI);
+		const _MData_ vVec  = opCode(set1_ps, 2.f*M_PI*Rp);
 		const _MData_ cVec  = opCode(set1_ps, zP*2.f);
 
 		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
@@ -825,7 +825,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 
 template<typename Float, const int step>
-inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Float * __restrict__ m2, const double R, const size_t Lx, const size_t Lz, const size_t Sf, size_t NN)
+inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Float * __restrict__ m2, const double R, const double Rp, const size_t Lx, const size_t Lz, const size_t Sf, size_t NN)
 {
 	const double zP = M_PI*R;
 	size_t countF = 0;
@@ -905,11 +905,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 				{
 					if (mDf > zP) {
 						mPy -= 2.*zP;
-						vPy -= 2.*M_PI;
+						vPy -= 2.*M_PI*Rp;
 						countF++;
 					} else if (mDf < zP) {
 						mPy += 2.*zP;
-						vPy += 2.*M_PI;
+						vPy += 2.*M_PI*Rp;
 						countF++;
 					}
 
@@ -926,11 +926,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 				{
 					if (mDfB > zP) {
 						melB -= 2.*zP;
-						vPyB -= 2.*M_PI;
+						vPyB -= 2.*M_PI*Rp;
 						countB++;
 					} else if (mDfB < zP) {
 						melB += 2.*zP;
-						vPyB += 2.*M_PI;
+						vPyB += 2.*M_PI*Rp;
 						countB++;
 					}
 
@@ -997,7 +997,7 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 /* TODO iterate until a jumpless line is found */
 
 template<typename Float>
-inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, const double R, const size_t Lz, const size_t Sf, size_t NN)
+inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, const double R, const double Rp, const size_t Lz, const size_t Sf, size_t NN)
 {
 	const double zP = M_PI*R;
 	size_t count = 0;
@@ -1056,11 +1056,11 @@ inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, con
 				while (abs(mDf) > zP) {
 					if (mDf > zP) {
 						mPz -= 2.*zP;
-						vPz -= 2.*M_PI;
+						vPz -= 2.*M_PI*Rp;
 						count++;
 					} else {
 						mPz += 2.*zP;
-						vPz += 2.*M_PI;
+						vPz += 2.*M_PI*Rp;
 						count++;
 					}
 
@@ -1081,30 +1081,31 @@ size_t	mendThetaXeon (Scalar *field)
 	constexpr int	dStep = Align/sizeof(double);
 	constexpr int	fStep = Align/sizeof(float);
 	const double	R     = *(field->RV());
+	const double	Rp    = field->BckGnd()->Rp(*field->zV())*R;	// theta + 2 pi means m + 2 pi R and v + 2 pi R'
 	size_t		tJmp = 0;
 	unsigned long tota = 0;
 
 	switch (field->Precision()) {
 		case	FIELD_DOUBLE:
-		tJmp += mendThetaLine(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()), R, field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaLine(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()), R, Rp, field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] line %lu jumps",tota);
-		tJmp += mendThetaSlice<double, dStep>(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()),static_cast<double*>(field->m2Cpu()),  R, field->Length(), field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaSlice<double, dStep>(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()),static_cast<double*>(field->m2Cpu()),  R, Rp, field->Length(), field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] Slice %lu jumps",tota);
 		if (tJmp > 0) LogMsg(VERB_HIGH,"[mT] Warnng: jumps in line/slice are not safe!");
-		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, field->Length(), field->Depth(), field->Surf(), field->Precision());
+		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, Rp, field->Length(), field->Depth(), field->Surf(), field->Precision());
 		break;
 
 		case	FIELD_SINGLE:
-		tJmp += mendThetaLine(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), R, field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaLine(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), R, Rp, field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] line %lu jumps",tota);
-		tJmp += mendThetaSlice<float, fStep>(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), static_cast<float *>(field->m2Cpu()), R, field->Length(), field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaSlice<float, fStep>(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), static_cast<float *>(field->m2Cpu()), R, Rp, field->Length(), field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] Slice %lu jumps",tota);
 		if (tJmp > 0) LogMsg(VERB_HIGH,"[mT] Warnng: jumps in line/slice are not safe!");
-		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, field->Length(), field->Depth(), field->Surf(), field->Precision());
+		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, Rp, field->Length(), field->Depth(), field->Surf(), field->Precision());
 		break;
 
 		default:
-- 
2.43.0


From 253277a0ff24fd66979dc0a8c6229d988c628621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 038/122] fix: angle to complex field: velocity of the modulus
 is R'/R, not 1/R

---
 lib/scalar/theta2CmplxXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/theta2CmplxXeon.cpp b/lib/scalar/theta2CmplxXeon.cpp
index b948dce..a29a2d9 100644
--- a/lib/scalar/theta2CmplxXeon.cpp
+++ b/lib/scalar/theta2CmplxXeon.cpp
@@ -22,7 +22,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<double> II = complex<double>{0,1};
 			size_t vol = sField->Size();
 			double r = *sField->RV();
-			double ir = 1/r;
+			double ir = sField->BckGnd()->Rp(*sField->zV());
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<double>*> (sField->mStart());
@@ -46,7 +46,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<float> II = complex<float>{0,1};
 			size_t vol = sField->Size();
 			float r = *sField->RV();
-			float ir = 1/r;
+			float ir = sField->BckGnd()->Rp(*sField->zV());
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<float>*> (sField->mStart());
-- 
2.43.0


From b0f7e2ad885157f57a69212cf55bb96a1d2a0ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 039/122] fix: complex field to angle: use R' of the
 background, also with gravity

---
 lib/scalar/thetaXeon.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/scalar/thetaXeon.cpp b/lib/scalar/thetaXeon.cpp
index 9ead872..aa33c08 100644
--- a/lib/scalar/thetaXeon.cpp
+++ b/lib/scalar/thetaXeon.cpp
@@ -28,9 +28,8 @@ void	toThetaKernelXeon (Scalar *sField, const Float shift)
 	Float *aField1  = static_cast<Float*>(sField->mFrontGhost()) ;
 	Float *aField2  = static_cast<Float*>(sField->mBackGhost()) ;
 
-	const Float z = static_cast<Float>(sField->zV()[0]);
 	const Float R = static_cast<Float>(sField->RV()[0]);
-	const Float F = static_cast<Float>(sField->BckGnd()->Frw())*R/z;
+	const Float F = static_cast<Float>(sField->BckGnd()->Rp(*sField->zV()))*R;
 
 	for (size_t cZ = 0; cZ < Lz; cZ++)
 	{
-- 
2.43.0


From 0fc5f0f220fe12c80024d1034e6d042e90c57384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 040/122] fix: angle to paxion: adiabatic term is M'/(2M^2)
 with M = mA R

---
 lib/scalar/theta2PaxionXeon.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/scalar/theta2PaxionXeon.cpp b/lib/scalar/theta2PaxionXeon.cpp
index e5c7b7b..d2b8958 100644
--- a/lib/scalar/theta2PaxionXeon.cpp
+++ b/lib/scalar/theta2PaxionXeon.cpp
@@ -15,15 +15,14 @@ void	th2PaxionXeon (Scalar *sField)
 		const size_t S  = sField->Surf();
 
 		double mA    = sField->AxionMass();
-		double R2    = (*sField->RV())*(*sField->RV());
-		double ct    = (*sField->zV());
-		double frw   = (sField->BckGnd()->Frw());
+		double R     = (*sField->RV());
+		double Rp    = sField->BckGnd()->Rp(*sField->zV());
 		double mA2   = (sField->AxionMassSq());
 		double DmA2ct= sField->BckGnd()->DAxionMass2Dct(*sField->zV());
 
 		Float sqcms1 = (Float) sqrt(0.5*mA*(*sField->RV()));
 		Float sqcms2 = (Float) sqrt(2.0*mA*(*sField->RV()));
-		Float adiab  = (Float) (DmA2ct + 2*frw*mA2*R2/ct)/(4*mA2*mA) ;
+		Float adiab  = (Float) (DmA2ct + 2*Rp*mA2)/(4*mA2*mA*R) ;
 		Float *cfield = static_cast<Float*> (sField->mStart());
 		Float *cveloc = static_cast<Float*> (sField->vCpu());
 		Float *faxion = static_cast<Float*> (sField->m2Cpu());
-- 
2.43.0


From 0b14f219edef2015f98f817f99b6cdbc2414b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 041/122] fix: derivative of the axion mass follows R' of the
 background

---
 lib/cosmos/cosmos.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index bfaad7d..48f05fa 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -279,17 +279,17 @@ double  Cosmos::DAxionMass2Dct (const double ct)
     if (zThRes <= zRestore) /* mode restore */
     {
       if (RNow < zThRes)
-        dMass2 = nQcd*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcd*Rp(ct)*AxionMass2(ct);
 
       if (RNow >= zThRes && RNow <= zRestore)
         dMass2 = 0;
 
       if (RNow > zRestore)
-        dMass2 = nQcdr*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcdr*Rp(ct)*AxionMass2(ct);
 
     } else { /* mode saturate */
       if (RNow < zThRes)
-        dMass2 = nQcd*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcd*Rp(ct)*AxionMass2(ct);
       else
         dMass2 = 0.0;
     }
-- 
2.43.0


From 9755639de9429e7ad2edbef37f434c2c0a47ecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 042/122] fix: logarithmic derivative of mA R: use R' of the
 background; missing parentheses in the tabulated case

---
 lib/cosmos/cosmos.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index 48f05fa..d31d6d1 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -303,29 +303,30 @@ double  Cosmos::DlogMARDlogct (const double ct)
 {
   if (ueCosm){
     double e = 1.e-6;
-    return (ct*std::sqrt(schi(ct+e))*R(ct+e)-std::sqrt(schi(ct-e))*R(ct-e))/(2.*e*std::sqrt(schi(ct))*R(ct));
+    return ct*(std::sqrt(schi(ct+e))*R(ct+e)-std::sqrt(schi(ct-e))*R(ct-e))/(2.*e*std::sqrt(schi(ct))*R(ct));
   }
   else {
     /*(nqcd/2 + 1)*frw*/
     double RNow = R(ct);
     double dlmRlct;
+    double frwNow = ct*Rp(ct);
 
     if (zThRes <= zRestore) /* mode restore */
     {
       if (RNow < zThRes)
-        dlmRlct = frw*(nQcd/2+1);
+        dlmRlct = frwNow*(nQcd/2+1);
 
       if (RNow >= zThRes && RNow <= zRestore)
-        dlmRlct = frw;
+        dlmRlct = frwNow;
 
       if (RNow > zRestore)
-        dlmRlct = frw*(nQcdr/2+1);
+        dlmRlct = frwNow*(nQcdr/2+1);
 
     } else { /* mode saturate */
       if (RNow < zThRes)
-        dlmRlct = frw*(nQcd/2+1);
+        dlmRlct = frwNow*(nQcd/2+1);
       else
-        dlmRlct = frw;
+        dlmRlct = frwNow;
     }
 
 LogMsg(VERB_PARANOID,"[Cos:] DlogMARDlogct %.2e ",dlmRlct);
-- 
2.43.0


From ba882385dc952469d811274e7c2d56b85a851803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 043/122] fix: mending the angle: no endless loop when two
 values differ by half a period

---
 lib/scalar/mendThetaXeon.cpp | 53 ++++++++++--------------------------
 1 file changed, 15 insertions(+), 38 deletions(-)

diff --git a/lib/scalar/mendThetaXeon.cpp b/lib/scalar/mendThetaXeon.cpp
index 0026187..bf868c8 100755
--- a/lib/scalar/mendThetaXeon.cpp
+++ b/lib/scalar/mendThetaXeon.cpp
@@ -901,19 +901,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 
 				mDf = mPy - mel;
 
-				while (abs(mDf) > zP)
-				{
-					if (mDf > zP) {
-						mPy -= 2.*zP;
-						vPy -= 2.*M_PI*Rp;
-						countF++;
-					} else if (mDf < zP) {
-						mPy += 2.*zP;
-						vPy += 2.*M_PI*Rp;
-						countF++;
-					}
-
-					mDf = mPy - mel;
+				if (abs(mDf) > zP) {
+					const double nP = std::round(mDf/(2.*zP));
+					mPy -= 2.*zP*nP;
+					vPy -= 2.*M_PI*Rp*nP;
+					countF += (size_t) std::abs(nP);
 				}
 
 				melB = m[idxB];        // value to compare
@@ -922,19 +914,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 
 				mDfB = melB - mPyB ;
 
-				while (abs(mDfB) > zP)
-				{
-					if (mDfB > zP) {
-						melB -= 2.*zP;
-						vPyB -= 2.*M_PI*Rp;
-						countB++;
-					} else if (mDfB < zP) {
-						melB += 2.*zP;
-						vPyB += 2.*M_PI*Rp;
-						countB++;
-					}
-
-					mDfB = melB - mPyB;
+				if (abs(mDfB) > zP) {
+					const double nP = std::round(mDfB/(2.*zP));
+					melB -= 2.*zP*nP;
+					vPyB -= 2.*M_PI*Rp*nP;
+					countB += (size_t) std::abs(nP);
 				}
 
 				/* write two m2 */
@@ -1053,18 +1037,11 @@ inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, con
 
 				mDf = mPz - mel;
 
-				while (abs(mDf) > zP) {
-					if (mDf > zP) {
-						mPz -= 2.*zP;
-						vPz -= 2.*M_PI*Rp;
-						count++;
-					} else {
-						mPz += 2.*zP;
-						vPz += 2.*M_PI*Rp;
-						count++;
-					}
-
-					mDf = mPz - mel;
+				if (abs(mDf) > zP) {
+					const double nP = std::round(mDf/(2.*zP));
+					mPz -= 2.*zP*nP;
+					vPz -= 2.*M_PI*Rp*nP;
+					count += (size_t) std::abs(nP);
 				}
 
 				m[idxPz] = mPz;
-- 
2.43.0


From 160951db6bccb45fec30ec5a87f2d0d9c82dcba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 044/122] fix: a conversion of the field invalidates what m2
 holds

---
 lib/scalar/theta2Naxion.cpp | 1 +
 lib/scalar/theta2Paxion.cpp | 1 +
 lib/scalar/thetaScalar.cpp  | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/lib/scalar/theta2Naxion.cpp b/lib/scalar/theta2Naxion.cpp
index e425a82..9c4f951 100644
--- a/lib/scalar/theta2Naxion.cpp
+++ b/lib/scalar/theta2Naxion.cpp
@@ -86,6 +86,7 @@ void	thetaToNaxion	(Scalar *field)
 	}
 
 	field->setField(FIELD_NAXION);
+	field->setM2   (M2_DIRTY);
 
 	munge(FOLD_ALL);
 
diff --git a/lib/scalar/theta2Paxion.cpp b/lib/scalar/theta2Paxion.cpp
index d34a953..48b3f22 100644
--- a/lib/scalar/theta2Paxion.cpp
+++ b/lib/scalar/theta2Paxion.cpp
@@ -86,6 +86,7 @@ void	thetaToPaxion	(Scalar *field)
 	}
 
 	field->setField(FIELD_PAXION);
+	field->setM2   (M2_DIRTY);
 
 
 	// munge(FOLD_ALL);
diff --git a/lib/scalar/thetaScalar.cpp b/lib/scalar/thetaScalar.cpp
index 5076292..6a6169e 100755
--- a/lib/scalar/thetaScalar.cpp
+++ b/lib/scalar/thetaScalar.cpp
@@ -89,6 +89,8 @@ void	cmplxToTheta	(Scalar *field, const double shift, const bool wMod)
 	} else
 		field->setField(FIELD_AXION);
 
+	field->setM2(M2_DIRTY);
+
 
 	field->setLowMem(false);
 
-- 
2.43.0


From 5a13ef80439e93788827eefd44a6613370766dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 045/122] fix: room for the velocity's ghost planes when an
 axion field becomes a paxion with several ghost layers

---
 lib/scalar/scalarField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 50c9f52..1171b53 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -207,7 +207,7 @@ const std::complex<float> If(0.,1.);
 
 	LogMsg(VERB_NORMAL, "[sca] Number of points to be allocatted: v3[m]  %llu n2(Lz+2)[v] %llu n3[str]", v3, (n2*(nLz + 2)),n3);
 	const size_t	mBytes = v3*fSize;
-	const size_t	vBytes = (n2*(nLz + 2))*fSize;
+	const size_t	vBytes = (n2*(nLz + std::max<size_t>(2, 2*Ng)))*fSize;	// a paxion velocity has as many ghosts as the field
 	LogMsg(VERB_NORMAL, "[sca] Bytes to be allocatted: mBytes %.3e GB, vBytes %.3e GB, strBytes %.3e GB", mBytes/1e9, vBytes/1e9, n3/1e9);
 	size_t totalCPU = 0;
 	switch (fieldType)
-- 
2.43.0


From e3e497efa120eae345cf18b2f0ff992857b69121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 046/122] fix: string attributes have 32 characters, also in
 memory

---
 lib/io/readWrite.pHdf5.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 779a710..cff155e 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -225,7 +225,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	hid_t	mSpace, vSpace, memSpace, dataType, totalSpace;
 	hsize_t	total, slice, slab, offset;
 
-	char	prec[16], fStr[16], lStr[16], rStr[16], dStr[16], vStr[32], vPQStr[32], icStr[16], smStr[16];
+	char	prec[32], fStr[32], lStr[32], rStr[32], dStr[32], vStr[32], vPQStr[32], icStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -762,7 +762,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		hid_t	attr_type;
 		hsize_t	slab, offset;
 		FieldPrecision	precision;
-		char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16];
+		char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32];
 		int	length = 32;
 		const hsize_t maxD[1] = { H5S_UNLIMITED };
 		size_t	dataSize;
@@ -1581,7 +1581,7 @@ void	createMeas (Scalar *axion, int index)
 {
 	hid_t	plist_id, dataType;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16], dStr[16], rStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32], dStr[32], rStr[32];
 	int	length = 32;
 
 //	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -3021,7 +3021,7 @@ void	writeEDens (Scalar *axion, MapType fMap)
 	hid_t	rSpace, tSpace, aSpace, memSpace, dataType, totalSpace;
 	hsize_t	total, slice, slab, offset, rOff;
 
-	char	prec[16], fStr[16];
+	char	prec[32], fStr[32];
 	int	length = 8;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -3357,7 +3357,7 @@ void	writeEDensReduced (Scalar *axion, int index, int newNx, int newNz)
 	hid_t	mSpace, memSpace, dataType, totalSpace;
 	hsize_t	total, slice, slab, newslab, offset;
 
-	char	prec[16], fStr[16];
+	char	prec[32], fStr[32];
 	int	length = 8;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -4407,7 +4407,7 @@ void	writeGadget (Scalar *axion, double eMean, size_t realN, size_t nParts, doub
 	hid_t	vSpc1, vSpc2, sSpce, memSpace, semSpace, dataType, totalSpace, scalarSpace;
 	hsize_t	total, slice, slab, offset, rOff;
 
-	char	prec[16], fStr[16];
+	char	prec[32], fStr[32];
 	int	length = 8;
 
 	size_t	dataSize;
@@ -5356,7 +5356,7 @@ double	readEDens (Cosmos *myCosmos, Scalar **axion, int index)
 
 	FieldPrecision	precision;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], smStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
-- 
2.43.0


From 79018a80f0c5bb6d75620b9e4e8ad7d893359a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 047/122] fix: a configuration written with VPQ2 or VPQ3 is
 read with the same potential

---
 lib/io/readWrite.pHdf5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index cff155e..fdbcb2f 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1088,9 +1088,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "VPQ 1"))
 						vqcdType |= V_PQ1;
-					else if ( !strcmp(vStr, "VPQ2"))
+					else if ( !strcmp(vStr, "VPQ 2"))
 						vqcdType |= V_PQ2;
-					else if ( !strcmp(vStr, "VPQ3"))
+					else if ( !strcmp(vStr, "VPQ 3"))
 						vqcdType |= V_PQ3;
 					else {
 						LogError ("Error reading file %s: invalid PQ potential type %s. Use PQ1", base, vStr);
-- 
2.43.0


From 35b94771b20f8aca6a4a5acbdb14976a4c4d8da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 048/122] fix: no field is returned when the file cannot be
 opened

---
 lib/io/readWrite.pHdf5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index fdbcb2f..d7a4b5f 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -796,7 +796,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 		if ((file_id = H5Fopen (base, H5F_ACC_RDONLY, plist_id)) < 0)
 		{
-			*axion == nullptr;
+			*axion = nullptr;
 			LogError ("Error opening file %s", base);
 			return;
 		}
@@ -5387,7 +5387,7 @@ double	readEDens (Cosmos *myCosmos, Scalar **axion, int index)
 	/*	Open the file and release the plist	*/
 	if ((file_id = H5Fopen (base, H5F_ACC_RDONLY, plist_id)) < 0)
 	{
-		*axion == nullptr;
+		*axion = nullptr;
 		LogError ("Error opening file %s", base);
 		return 0.0;
 	}
-- 
2.43.0


From e088342df1ca1f06a7b7f80d929f2e0120f35c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 049/122] fix: the expansion exponent of a configuration is
 read unless the command line sets it

---
 include/utils/parse.h      | 1 +
 lib/io/readWrite.pHdf5.cpp | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/utils/parse.h b/include/utils/parse.h
index bcfa1d5..1360ab3 100644
--- a/include/utils/parse.h
+++ b/include/utils/parse.h
@@ -67,6 +67,7 @@ extern bool uPrec;
 //extern bool uPot;
 extern bool uZin;
 extern bool uZfn;
+extern bool uFR;
 extern bool aMod;
 extern bool spectral;
 extern bool fpectral;
diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index d7a4b5f..0cbee61 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -864,7 +864,12 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			readAttribute (file_id, &fTmp,  "Frw",          H5T_NATIVE_DOUBLE);
 
 			// note: command line is given precedence
-			if (myCosmos->Frw() != fTmp) {
+			if (!uFR) {
+				myCosmos->SetFrw(fTmp);
+				if (fTmp == 0.0)
+					myCosmos->SetMink(true);
+			}
+			else if (myCosmos->Frw() != fTmp) {
 				LogMsg (VERB_NORMAL, "Commandline input for frw (%.2f) does not match h5read value (%.2f); frw set to input %.2f",myCosmos->Frw(),fTmp,myCosmos->Frw());
 				fTmp = myCosmos->Frw();
 				if (fTmp == 0.0 ){
-- 
2.43.0


From 97785d082a189b3b44025c3ba885485244272a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 050/122] fix: a configuration keeps that only theta evolves

---
 lib/io/readWrite.pHdf5.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 0cbee61..1a223bc 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -429,8 +429,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		caspr(V_NONE,dStr,"None")
 	}
 
-	switch (vqcdType & V_EVOL_RHO)	{
+	switch (vqcdType & V_EVOL)	{
 		caspr(V_EVOL_RHO,rStr,"Only Rho")
+		caspr(V_EVOL_THETA,rStr,"Only Theta")
 		default:
 		caspr(V_NONE,rStr,"Full")
 	}
@@ -1138,6 +1139,8 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "Only Rho"))
 						vqcdType |= V_EVOL_RHO;
+					else if (!strcmp(vStr, "Only Theta"))
+						vqcdType |= V_EVOL_THETA;
 					else if (!strcmp(vStr, "Full"))
 						vqcdType |= V_NONE;
 					else {
@@ -1739,8 +1742,9 @@ void	createMeas (Scalar *axion, int index)
 		caspr(V_NONE,dStr,"None")
 	}
 
-	switch (vqcdType & V_EVOL_RHO)	{
+	switch (vqcdType & V_EVOL)	{
 		caspr(V_EVOL_RHO,rStr,"Only Rho")
+		caspr(V_EVOL_THETA,rStr,"Only Theta")
 		default:
 		caspr(V_NONE,rStr,"Full")
 	}
-- 
2.43.0


From 9b774adb84292802324af162d25059ec4622c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 051/122] fix: writing a Naxion configuration tested an
 uninitialised dataset

---
 lib/io/readWrite.pHdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 1a223bc..2f99628 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -221,7 +221,7 @@ void	enableErrorStack	()
 
 void	writeConf (Scalar *axion, int index, const bool restart)
 {
-	hid_t	file_id, mset_id, vset_id, plist_id, chunk_id;
+	hid_t	file_id, mset_id, vset_id = 0, plist_id, chunk_id;	// there is no v in a Naxion file
 	hid_t	mSpace, vSpace, memSpace, dataType, totalSpace;
 	hsize_t	total, slice, slab, offset;
 
-- 
2.43.0


From 905676a152dbe28cae57b7a6981b6bc560488d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 052/122] fix: a transform of M and V does not skip V when M is
 already there

---
 lib/scalar/fourier.cpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/lib/scalar/fourier.cpp b/lib/scalar/fourier.cpp
index 81bcf56..1fd024a 100644
--- a/lib/scalar/fourier.cpp
+++ b/lib/scalar/fourier.cpp
@@ -40,18 +40,16 @@ void	FTfield::ftField(FieldIndex mvomv)
 	switch(field->Field()){
 		case FIELD_SAXION:
 		{
-			if (mvomv & FIELD_M)
+			if ((mvomv & FIELD_M) && !field->MMomSpace())
 				{
-					if (field->MMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("C2CM2M");
 					myPlan.run(FFT_FWD);
 					scaleField	(field, FIELD_M, scale );
 					field->setMMomSpace(true);
 					LogMsg  (VERB_HIGH, "[Ftfield] complex M transformed into momentum space ");
 				}
-			if (mvomv & FIELD_V)
+			if ((mvomv & FIELD_V) && !field->VMomSpace())
 				{
-					if (field->VMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("C2CV2V");
 					myPlan.run(FFT_FWD);
 					scaleField	(field, FIELD_V, scale);
@@ -69,9 +67,8 @@ void	FTfield::ftField(FieldIndex mvomv)
 		} break;
 		case FIELD_AXION:
 		{
-			if (mvomv & FIELD_M)
+			if ((mvomv & FIELD_M) && !field->MMomSpace())
 				{
-					if (field->MMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("R2CM22M");
 					/* we assume the field is ghosted and unpadded
 					and we want its FT at m (unghosted)
@@ -82,9 +79,8 @@ void	FTfield::ftField(FieldIndex mvomv)
 					field->setMMomSpace(true);
 					LogMsg  (VERB_HIGH, "[Ftfield] real M transformed into momentum space ");
 				}
-			if (mvomv & FIELD_V)
+			if ((mvomv & FIELD_V) && !field->VMomSpace())
 				{
-					if (field->VMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("R2CM22V");
 					/* we assume the field is unghosted unpadded
 					and we want its FT at v (unghosted)
@@ -128,17 +124,15 @@ void	FTfield::iftField(FieldIndex mvomv)
 	switch(field->Field()){
 		case FIELD_SAXION:
 		{
-			if (mvomv & FIELD_M)
+			if ((mvomv & FIELD_M) && field->MMomSpace())
 				{
-					if (!field->MMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("C2CM2M");
 					myPlan.run(FFT_BCK);
 					field->setMMomSpace(false);
 					LogMsg  (VERB_HIGH, "[Ftfield] complex M transformed into position space ");
 				}
-			if (mvomv & FIELD_V)
+			if ((mvomv & FIELD_V) && field->VMomSpace())
 				{
-					if (!field->VMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("C2CV2V");
 					myPlan.run(FFT_BCK);
 					field->setVMomSpace(false);
@@ -155,9 +149,8 @@ void	FTfield::iftField(FieldIndex mvomv)
 		} break;
 		case FIELD_AXION:
 		{
-			if (mvomv & FIELD_M)
+			if ((mvomv & FIELD_M) && field->MMomSpace())
 				{
-					if (!field->MMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("R2CM22M");
 					/* Here we asume that FT(m) is unghosted in m
 					and we want m ghosted and unpadded in m
@@ -167,9 +160,8 @@ void	FTfield::iftField(FieldIndex mvomv)
 					field->setMMomSpace(false);
 					LogMsg  (VERB_HIGH, "[Ftfield] real M transformed into position space");
 				}
-			if (mvomv & FIELD_V)
+			if ((mvomv & FIELD_V) && field->VMomSpace())
 				{
-					if (!field->VMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("R2CM22V");
 					/* Here we asume that FT(m) is unghosted in m
 					and we want v ghosted and unpadded in v
-- 
2.43.0


From a187a88ebccc6eda804656963efd92bebf587044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 053/122] fix: a configuration gets its name only once it is
 complete

---
 lib/io/readWrite.pHdf5.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 2f99628..de80b3f 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -276,10 +276,15 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	else
 		sprintf(base, "%s/%s.restart", outDir, outName);
 
+	/*	Write under a temporary name, a crash while writing must not leave a file
+		that looks complete (or destroy the previous one)	*/
+	char temp[264];
+	sprintf(temp, "%s.part", base);
+
 	/*	Create the file and release the plist	*/
-	if ((file_id = H5Fcreate (base, H5F_ACC_TRUNC, H5P_DEFAULT, plist_id)) < 0)
+	if ((file_id = H5Fcreate (temp, H5F_ACC_TRUNC, H5P_DEFAULT, plist_id)) < 0)
 	{
-		LogError ("Error creating file %s", base);
+		LogError ("Error creating file %s", temp);
 		return;
 	}
 
@@ -726,7 +731,14 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	H5Pclose (chunk_id);
 	H5Sclose (totalSpace);
 	H5Pclose (plist_id);
-	H5Fclose (file_id);
+	auto cErr = H5Fclose (file_id);
+
+	/*	All ranks are done, the file gets its name	*/
+	commSync();
+	if (myRank == 0)
+		if ((cErr < 0) || rename(temp, base))
+			LogError ("Error completing file %s", base);
+	commSync();
 
 	prof.stop();
 	prof.add(std::string("Write configuration"), 0., (2.*total*dataSize + 81.)*1e-9);
-- 
2.43.0


From c05d3f0950f021853dee84b35481d9a8fe78e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 054/122] fix: after a restart the measurements of the list
 that were already made are not repeated

---
 test/vaxions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/test/vaxions.cpp b/test/vaxions.cpp
index 79bf97c..0c10101 100755
--- a/test/vaxions.cpp
+++ b/test/vaxions.cpp
@@ -234,6 +234,9 @@ int	main (int argc, char *argv[])
 				i_meas++;
 				LogOut("i_meas++ initial conditions coincided with 1st measurement\n");
 		}
+		// the measurements up to the time of the restart were done before the stop
+		while (restart_flag && (i_meas+1 < measfilepar.ct.size()) && (measfilepar.ct[i_meas] <= (*axion->zV())*(1.+1.0e-10)))
+				i_meas++;
 
 	}
 
-- 
2.43.0


From 2866fc794eff82ea21791c3a855a82a2a148599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 055/122] fix: a restart continues with the field type that was
 saved

---
 lib/io/readWrite.pHdf5.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index de80b3f..54ce480 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1387,21 +1387,21 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		{
 			fTypeRead = FIELD_AXION;
 			fTypeCreate = FIELD_AXION;
-			if (fTypeP == FIELD_SAXION)
+			if (fTypeP == FIELD_SAXION && !restart)
 				fTypeCreate = FIELD_SAXION;
 		}
 		else if (!strcmp(fStr, "Axion Mod"))
 		{
 			fTypeRead = FIELD_AXION_MOD;
 			fTypeCreate = FIELD_AXION_MOD;
-			if (fTypeP == FIELD_SAXION)
+			if (fTypeP == FIELD_SAXION && !restart)
 				fTypeCreate = FIELD_SAXION;
 		}
 		else if (!strcmp(fStr, "Paxion"))
 		{
 			fTypeRead = FIELD_PAXION;
 			fTypeCreate = FIELD_PAXION;
-			if (fTypeP == FIELD_SAXION)
+			if (fTypeP == FIELD_SAXION && !restart)
 				fTypeCreate = FIELD_PAXION;
 		}
 		else
@@ -1508,22 +1508,22 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 		commSync();
 
-		/* Transform Field saxion->axion, axion->saxion */
+		/* Transform Field saxion->axion, axion->saxion (a restart continues with the field that was saved) */
 		//TODO make it consistent for axion mod
 
 		LogMsg(VERB_NORMAL,"[rc] fTypeParsed %d fTypeRead %d fTypeCreate %d",fTypeP, fTypeRead, fTypeCreate);
 
-		if (fTypeP == FIELD_SAXION && (fTypeRead == FIELD_AXION || fTypeRead == FIELD_AXION_MOD)){
+		if (!restart && fTypeP == FIELD_SAXION && (fTypeRead == FIELD_AXION || fTypeRead == FIELD_AXION_MOD)){
 			LogMsg(VERB_NORMAL,"[rc] Saxion requested, axion read. Transforming... ");
 			ctheta2csaxion(*axion);
 		}
-		if (fTypeP == FIELD_AXION && fTypeRead == FIELD_SAXION){
+		if (!restart && fTypeP == FIELD_AXION && fTypeRead == FIELD_SAXION){
 			LogMsg(VERB_NORMAL,"[rc] Axion requested, saxion read. Transforming... ");
 			aMod = false;
 			double shiftz = (*axion)->Saskia()*(*(*axion)->RV());
 			cmplxToTheta (*axion, shiftz, aMod);
 		}
-		if (fTypeP == FIELD_AXION_MOD && fTypeRead == FIELD_SAXION){
+		if (!restart && fTypeP == FIELD_AXION_MOD && fTypeRead == FIELD_SAXION){
 			LogMsg(VERB_NORMAL,"[rc] Axion% requested, saxion read. Transforming... ");
 			LogMsg(VERB_NORMAL,"[rc] WARINING: axion mod not tested");
 			aMod = true;
-- 
2.43.0


From 588ade482ad04dcf9b5daf2347c7e7544d838631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 056/122] fix: asking for an FFT plan that does not exist
 prevented it from being made later

---
 lib/fft/fftCode.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index 0869994..a7c5910 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -585,6 +585,8 @@ namespace AxionFFT {
 
 			default:
 				LogError ("Invalid field precision, plan not executed.");
+				if (myRank ==0)
+					fclose(file_fft);
 				return;
 		}
 
@@ -744,7 +746,17 @@ namespace AxionFFT {
 	}
 
 	FFTplan&	fetchPlan	(std::string name) {
-		return fftPlans[name];
+		auto plan = fftPlans.find(name);
+
+		if (plan == fftPlans.end()) {
+			/*	Do not insert an empty plan, initPlan would take it as an existing one	*/
+			static FFTplan noPlan;
+
+			LogError ("FFT plan %s not found", name.c_str());
+			return noPlan = FFTplan();
+		}
+
+		return plan->second;
 	}
 
 
-- 
2.43.0


From 522f4facedeb04c42afec9051c06716a20c2ef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 057/122] fix: after a field was deleted no FFT plan could be
 made

---
 lib/fft/fftCode.cpp | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index a7c5910..d76f549 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -820,8 +820,6 @@ namespace AxionFFT {
 			LogMsg (VERB_PARANOID, "             %s", name.c_str());
 		}
 
-		FieldPrecision	prec;
-
 		for (auto fft = fftPlans.cbegin(); fft != fftPlans.cend(); ) {
 			auto name = (*fft).first;
 			auto plan = (*fft).second;
@@ -831,8 +829,6 @@ namespace AxionFFT {
 				return;
 			}
 
-			prec = plan.Precision();
-
 			LogMsg      (VERB_HIGH, "Destroying plan %s", name.c_str());
 			destroyPlan (plan);
 			LogMsg      (VERB_HIGH, "Plan %s destroyed", name.c_str());
@@ -843,26 +839,11 @@ namespace AxionFFT {
 			LogFlush();
 		}
 
-		switch (prec) {
-			case FIELD_SINGLE:
-				if (useThreads)
-					fftwf_cleanup_threads();
-				else
-					fftwf_cleanup();
-			break;
-
-			case FIELD_DOUBLE:
-				if (useThreads)
-					fftw_cleanup_threads();
-				else
-					fftw_cleanup();
-				break;
-
-
-			default:
-				LogError ("Invalid field precision.");
-				return;
-		}
+		/*	All layers have to be closed, or the next initialisation finds a planner without them	*/
+		fftwf_mpi_cleanup();
+		fftwf_cleanup_threads();
+		fftw_mpi_cleanup();
+		fftw_cleanup_threads();
 
 		LogMsg (VERB_NORMAL, "FFT successfully closed");
 		init = false;
-- 
2.43.0


From 1f74bff563669afaa039fdec36989d371f1231cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 058/122] fix: running an FFT plan in a direction it was not
 made for used an uninitialised pointer

---
 lib/fft/fftCode.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index d76f549..02f7f6e 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -99,7 +99,7 @@ namespace AxionFFT {
 		LogMsg (VERB_NORMAL, "Wisdom successfully exported");
 	}
 
-		FFTplan::FFTplan	(Scalar * axion, FFTtype type, FFTdir dFft, size_t red) : type(type), dFft(dFft), prec(axion->Precision()) {
+		FFTplan::FFTplan	(Scalar * axion, FFTtype type, FFTdir dFft, size_t red) : planForward(nullptr), planBackward(nullptr), type(type), dFft(dFft), prec(axion->Precision()) {
 
 		Lx = axion->Length()/red;
 		Lz = axion->TotalDepth()/red;
@@ -524,6 +524,11 @@ namespace AxionFFT {
 
 	void	FFTplan::run	(FFTdir cDir)
 	{
+		if (!(dFft & cDir)) {
+			LogError ("FFT plan not made for this direction, not executed.");
+			return;
+		}
+
 		LogMsg (VERB_NORMAL, "Executing FFT %p -> %p",pfrom,pto);
 
 		LogFlush();
-- 
2.43.0


From e0c41b3ef2bd934719fa1c804e663f68261e605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 059/122] fix: the linear potential spectrum used the angle
 from the wrong axis

---
 lib/utils/kgvops.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/utils/kgvops.cpp b/lib/utils/kgvops.cpp
index 510f51f..6e68388 100644
--- a/lib/utils/kgvops.cpp
+++ b/lib/utils/kgvops.cpp
@@ -912,7 +912,7 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 					case SPMASK_FLAT:
 								// m2sa[odx]  = Rscale*std::sqrt(2*(1-da[0]/std::sqrt(da[0]*da[0]+da[1]*da[1])));
 								m2sa[odx]  = 2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = Rscale   * std::atan2(da[0],da[1]);
+								m2sax[odx] = Rscale   * std::atan2(da[1],da[0]);
 							break;
 					case SPMASK_REDO:
 					case SPMASK_BALL:
@@ -921,7 +921,7 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 										m2sax[odx]= 0 ; }
 								else {
 										m2sa[odx] = 2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-										m2sax[odx] = Rscale*std::atan2(da[0],da[1]); }
+										m2sax[odx] = Rscale*std::atan2(da[1],da[0]); }
 							break;
 					case SPMASK_GAUS:
 					case SPMASK_DIFF:
@@ -931,12 +931,12 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 					case SPMASK_VIL: {
 								Float mskk = std::sqrt(da[0]*da[0]+da[1]*da[1])/Rscale;
 								m2sa[odx]  = mskk*2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = mskk*Rscale*std::atan2(da[0],da[1]); }
+								m2sax[odx] = mskk*Rscale*std::atan2(da[1],da[0]); }
 							break;
 					case SPMASK_VIL2: {
 								Float mskk = (da[0]*da[0]+da[1]*da[1])/Rscale/Rscale;
 								m2sa[odx]  = mskk*2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = mskk*Rscale*std::atan2(da[0],da[1]); }
+								m2sax[odx] = mskk*Rscale*std::atan2(da[1],da[0]); }
 							break;
 				} //end mask
 			}
-- 
2.43.0


From dc8f56ef42ad819e6647ec381644bcf124ce4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 060/122] fix: the fast potential spectrum applied the mask of
 the next plane

---
 lib/spectrum/spectrum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index a35c7c5..e80449b 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -1205,8 +1205,8 @@ void	SpecBin::nRun	(nRunType nrt) {
 					#pragma omp parallel for schedule(static)
 					for (size_t iz=0; iz < Lz; iz++) {
 						size_t zo = Ly*(Ly+2)*iz ;
-						size_t zi = Ly*Ly*iz ;
-						size_t zp = Ly*Ly*(iz+1) ;
+						size_t zi = LyLy*(iz+1) ;
+						size_t zp = LyLy*(iz+2) ;
 						for (size_t iy=0; iy < Ly; iy++) {
 							size_t yo = (Ly+2)*iy ;
 							size_t yi = Ly*iy ;
@@ -1225,7 +1225,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 											m2sa[odx] = mass*Rscale*std::arg(ma[idx]-zaskaF);
 											break;
 									case SPMASK_REDO:
-											if (strdaa[idx] & STRING_MASK){
+											if (strdaa[idx-LyLy] & STRING_MASK){
 													m2sa[odx] = 0 ;
 											}
 											else{
-- 
2.43.0


From b753aaf0ff514cb389b66e7328dac5aceced19db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 061/122] fix: a histogram's range came from the first value
 even if it was infinite or NaN

---
 include/utils/binner.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/utils/binner.h b/include/utils/binner.h
index 9848468..8f22907 100644
--- a/include/utils/binner.h
+++ b/include/utils/binner.h
@@ -103,15 +103,15 @@
 		if ((inData == nullptr) || (dSize == 0))
 			return ;
 
-		auto	car = filter(inData[0]);
-		auto	cir = filter(inData[0]);
+		double	car = -INFINITY;
+		double	cir =  INFINITY;
 		int	anf =0;
 		int Ninf = 0;
 
 		if (PaddedLength == DataLength) {
 
 			#pragma omp parallel for schedule(static) reduction(max:car) reduction(min:cir) reduction(+:anf)
-			for (size_t idx=1; idx<dSize; idx++) {
+			for (size_t idx=0; idx<dSize; idx++) {
 
 				double tmp = filter(inData[idx]);
 
@@ -129,7 +129,7 @@
 		} else if (PaddedLength > DataLength) {
 			LogMsg (VERB_NORMAL, "Padded loop");LogFlush();
 			#pragma omp parallel for schedule(static) reduction(max:car) reduction(min:cir) reduction(+:anf)
-			for (size_t idx=1; idx<dSize; idx++) {
+			for (size_t idx=0; idx<dSize; idx++) {
 
 				if (idx%PaddedLength >= DataLength)
 					continue;
-- 
2.43.0


From d18120136ed21fed0590019281f1072556830918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 062/122] fix: the angle and radius histograms took their
 planes from the halo when it is deeper than one

---
 lib/meas/measa.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 83147ef..84ad710 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -849,7 +849,7 @@ writePMapHdf5s (axiona, LAB);
 					// complex<Float> shhhs = (shs,0.);
 					// Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
 					// 				 [s=shhhs] (complex<Float> x) { return (double) arg(x-s); });
-					Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 									 [] (complex<Float> x) { return (double) arg(x); });
 					thBin.run();
 					writeBinner(thBin, "/bins", "thetaB");
@@ -864,7 +864,7 @@ writePMapHdf5s (axiona, LAB);
 					// complex<Float> shhhs = (shs,0.);
 					// Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
 					// 					[z=z_now,s=shhhs] (complex<Float> x) { return (double) abs(x-s)/z; } );
-					Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 										[z=R_now] (complex<Float> x) { return (double) abs(x)/z; } );
 					rhoBin.run();
 					writeBinner(rhoBin, "/bins", "rhoB");
@@ -873,7 +873,7 @@ writePMapHdf5s (axiona, LAB);
 					{
 						// LogOut("binL ");
 						LogMsg(VERB_NORMAL, "[Meas %d] bin log10 theta^2 ",indexa);
-						Binner<3000,complex<Float>> logth2Bin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+						Binner<3000,complex<Float>> logth2Bin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 										 [] (complex<Float> x) { return (double) log10(1.0e-10+pow(arg(x),2)); });
 						logth2Bin.run();
 						writeBinner(logth2Bin, "/bins", "logtheta2B");
@@ -884,7 +884,7 @@ writePMapHdf5s (axiona, LAB);
 		{
 			// LogOut("binthetha ");
 			LogMsg(VERB_NORMAL, "[Meas %d] bin theta ",indexa);
-				Binner<3000,Float> thBin(static_cast<Float *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+				Binner<3000,Float> thBin(static_cast<Float *>(axiona->mStart()), axiona->Size(),
 								 [z=R_now] (Float x) { return (double) (x/z); });
 				thBin.run();
 				writeBinner(thBin, "/bins", "thetaB");
@@ -898,7 +898,7 @@ writePMapHdf5s (axiona, LAB);
 				{
 					// LogOut("bintt2 ");
 					LogMsg(VERB_NORMAL, "[Meas %d] bin log10 theta^2 ",indexa);
-					Binner<3000,Float> logth2Bin2(static_cast<Float *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,Float> logth2Bin2(static_cast<Float *>(axiona->mStart()), axiona->Size(),
 									 [z=R_now] (Float x) -> float { return (double) log10(1.0e-10+pow(x/z,2)); });
 					logth2Bin2.run();
 					writeBinner(logth2Bin2, "/bins", "logtheta2B");
-- 
2.43.0


From 497181569e27db001b51f89b9b6832890f618cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 063/122] fix: the axion mass integrals took a wrong mass after
 the cut and a wrong time for it

---
 lib/scalar/scalarField.cpp | 70 ++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 1171b53..261c892 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1224,43 +1224,47 @@ double	Scalar::IAxionMassSqn(double z0, double z, int nn) {
 	double &zRestore = bckgnd->ZRestore();
 	double &indi3    = bckgnd->Indi3();
 	double &nQcd     = bckgnd->QcdExp();
+	double frw       = bckgnd->Frw();
+	// time of the cut and constant mass^2 from then on
+	double zCut      = (frw != 0.0) ? pow(zThRes, 1./frw) : ((zThRes > 1.0) ? INFINITY : 0.0);
+	double mCut      = indi3*indi3*pow(zThRes, nQcd);
 
 	// assume zrestore is infty
 	// exponent of the time integral
 	if (z > z0){
-		if (z <= zThRes){
+		if (z <= zCut){
 			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
 			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
 			return inte;
 		}
-		if ( (z > zThRes) && (z0 < zThRes)){
+		if ( (z > zCut) && (z0 < zCut)){
 			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
+			double inte = (pow(zCut, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
 			exponent = (bckgnd->Frw())*(nn) +1;
-			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3*indi3/(exponent);
+			inte += (pow(z, exponent)-pow(zCut, exponent))*mCut/(exponent);
 			return inte;
 		}
-		if ( z > zThRes && (z0 >= zThRes)){
+		if ( z > zCut && (z0 >= zCut)){
 			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
+			double inte = (pow(z, exponent)-pow(z0, exponent))*mCut/(exponent);
 			return inte;
 		}
 	} else {
-		if (z0 <= zThRes){
+		if (z0 <= zCut){
 			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
 			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
 			return inte;
 		}
-		if ( (z0 > zThRes) && (z < zThRes)){
+		if ( (z0 > zCut) && (z < zCut)){
 			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
+			double inte = (pow(zCut, exponent)-pow(z0, exponent))*mCut/(exponent);
 			exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3*indi3/(exponent);
+			inte += (pow(z, exponent)-pow(zCut, exponent))*indi3*indi3/(exponent);
 			return inte;
 		}
-		if ( z0 > zThRes && (z >= zThRes)){
+		if ( z0 > zCut && (z >= zCut)){
 			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
+			double inte = (pow(z, exponent)-pow(z0, exponent))*mCut/(exponent);
 			return inte;
 		}
 	}
@@ -1276,51 +1280,57 @@ double	Scalar::IIAxionMassSqn(double z0, double z, int nn) {
 	double &zRestore = bckgnd->ZRestore();
 	double &indi3    = bckgnd->Indi3();
 	double &nQcd     = bckgnd->QcdExp();
+	double frw       = bckgnd->Frw();
+	// time of the cut and constant mass^2 from then on
+	double zCut      = (frw != 0.0) ? pow(zThRes, 1./frw) : ((zThRes > 1.0) ? INFINITY : 0.0);
+	double mCut      = indi3*indi3*pow(zThRes, nQcd);
 
 	// assume zrestore is infty
 	// exponent of the time integral
 	if (z>z0){
-		if (z <= zThRes){
+		if (z <= zCut){
 			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
 			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
 										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
 			return inte;
 		}
-		if ( (z > zThRes) && (z0 < zThRes)){
+		if ( (z > zCut) && (z0 < zCut)){
 			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent);
+			double inte = (pow(zCut, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
+										- pow(z0, exponent)*(zCut-z0)*indi3*indi3/(exponent);
+			inte += (pow(zCut, exponent)-pow(z0, exponent))*(z-zCut)*indi3*indi3/(exponent);
 			exponent = (bckgnd->Frw())*(nn) +1;
-			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(zThRes, exponent)*(z-zThRes)*indi3*indi3/(exponent);
+			inte += (pow(z, exponent+1)-pow(zCut, exponent+1))*mCut/(exponent*(exponent+1))
+										- pow(zCut, exponent)*(z-zCut)*mCut/(exponent);
 			return inte;
 		}
-		if ( z > zThRes && (z0 >= zThRes)){
+		if ( z > zCut && (z0 >= zCut)){
 			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
+			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*mCut/(exponent*(exponent+1))
+										- pow(z0, exponent)*(z-z0)*mCut/(exponent);
 			return inte;
 		}
 	} else {
-		if (z0 <= zThRes){
+		if (z0 <= zCut){
 			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
 			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
 										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
 			return inte;
 		}
-		if ( (z0 > zThRes) && (z < zThRes)){
+		if ( (z0 > zCut) && (z < zCut)){
 			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent);
+			double inte = (pow(zCut, exponent+1)-pow(z0, exponent+1))*mCut/(exponent*(exponent+1))
+										- pow(z0, exponent)*(zCut-z0)*mCut/(exponent);
+			inte += (pow(zCut, exponent)-pow(z0, exponent))*(z-zCut)*mCut/(exponent);
 			exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(zThRes, exponent)*(z-zThRes)*indi3*indi3/(exponent);
+			inte += (pow(z, exponent+1)-pow(zCut, exponent+1))*indi3*indi3/(exponent*(exponent+1))
+										- pow(zCut, exponent)*(z-zCut)*indi3*indi3/(exponent);
 			return inte;
 		}
-		if ( z > zThRes && (z0 >= zThRes)){
+		if ( z > zCut && (z0 >= zCut)){
 			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
+			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*mCut/(exponent*(exponent+1))
+										- pow(z0, exponent)*(z-z0)*mCut/(exponent);
 			return inte;
 		}
 	}
-- 
2.43.0


From 5a5fd81629332eadd6cff7ef56af653f6f78b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 064/122] fix: the saxion shift at a given time was the one at
 the field's own time

---
 lib/scalar/scalarField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 261c892..a8d839b 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1494,13 +1494,13 @@ double  Scalar::Saskia  (const double ct)
 
 		case    V_QCD1:
 			if 			((pot & V_PQ) & (V_PQ1 | V_PQ3)){
-				double sh = SaxionShift();
+				double sh = SaxionShift(ct);
 				LogMsg(VERB_PARANOID,"[sca:Saskia] Shift PQ1 %e",sh);
 				return sh;
 			}
 			else if ((pot & V_PQ) == V_PQ2)
 			{
-				double sh = rsvPQ2(AxionMassSq()/bckgnd->LambdaP (*z));
+				double sh = rsvPQ2(AxionMassSq(ct)/bckgnd->LambdaP (ct));
 				LogMsg(VERB_PARANOID,"[sca:Saskia] Shift PQ2 %e",sh);
 				return sh ;
 			}
-- 
2.43.0


From 0b30f2c1e63456daa41858a8b6da942c34bdc90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 065/122] fix: reading the tabulated cosmology used
 uninitialised loop counters and path

---
 lib/cosmos/cosmos.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index d31d6d1..dd34af6 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -21,7 +21,7 @@ void Cosmos::Setup()
 
   /*Read Cosmology*/
 
-  char cosName[2048];
+  char cosName[2048] = ".";
   if (const char *cosPath = std::getenv("JAXIONS_DIR")) {
     if (strlen(cosPath) < 1022) {
       struct stat tStat;
@@ -32,7 +32,7 @@ void Cosmos::Setup()
       }
     }
   }
-  sprintf(cosName, "%s%s", cosName,  "/include/cosmos/jaxi-cosmo.txt");
+  strcat(cosName, "/include/cosmos/jaxi-cosmo.txt");
   std::vector<double>	etav, Rv, Tv, Rppv, chiv, pfv;
   FILE *cFile = nullptr;
   if (((cFile  = fopen(cosName, "r")) == nullptr)){
@@ -90,7 +90,7 @@ void Cosmos::Setup()
   LogFlush();
   {
     std::vector<double>	letav;
-    for (int i; i < etav.size();i++)
+    for (int i = 0; i < etav.size();i++)
       letav.push_back(std::log10(etav[i]));
 
     double lfA = std::log10(fA);
@@ -132,7 +132,7 @@ void Cosmos::Setup()
     in ADM units we thus have R_ctct/R = Rpp/ct^2
     should we tabulate however the log, which extrapolates safely to 0? */
 
-  for (int i; i < etav.size();i++){
+  for (int i = 0; i < etav.size();i++){
     etav[i] /= eta1;
     Rv[i]   /= R1;
     chiv[i] /= chi1;
-- 
2.43.0


From 6be05a2a67643fc639af7e86832900144f013551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 066/122] fix: an energy slice beyond the first rank's planes
 was read outside its map

---
 lib/io/readWrite.pHdf5.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 54ce480..893e2bc 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -4061,7 +4061,15 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
 	hsize_t slb  = axion->Surf();
 	hsize_t lSz  = axion->Length();
-	char *dataE  = static_cast<char *>(axion->m2Cpu()) + dataSize*axion->Surf()*slicenumbertoprint;
+	/* slice of the whole lattice: the rank that holds it prints it */
+	size_t slicenumber = slicenumbertoprint;
+	if (slicenumber >= axion->TotalDepth())
+	{
+		LogMsg (VERB_NORMAL, "Sliceprintnumberchanged to 0");
+		slicenumber = 0;
+	}
+	int prank    = slicenumber/axion->Depth();
+	char *dataE  = static_cast<char *>(axion->m2Cpu()) + dataSize*axion->Surf()*(slicenumber % axion->Depth());
 	// char eCh[16] = dataname;
 
 	LogMsg (VERB_NORMAL, "[wem] Writing 2D energy map to Hdf5 measurement file");
@@ -4097,13 +4105,6 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 		dataType = H5T_NATIVE_FLOAT;
 	}
 
-	int slicenumber = slicenumbertoprint ;
-	if (slicenumbertoprint > axion->Depth())
-	{
-		LogMsg (VERB_NORMAL, "Sliceprintnumberchanged to 0");
-		slicenumber = 0;
-	}
-
 	/*	Create a group for map data if it doesn't exist	*/
 	auto status = H5Lexists (meas_id, "/map", H5P_DEFAULT);
 
@@ -4128,7 +4129,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 		exit (1);
 	}
 
-	if (myRank != 0) {
+	if (myRank != prank) {
 		H5Sselect_none(mapSpace);
 	}
 
@@ -4184,7 +4185,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 
 	hsize_t offset = 0;
 
-	if (myRank == 0) {
+	if (myRank == prank) {
 		H5Sselect_hyperslab(eSpace, H5S_SELECT_SET, &offset, NULL, &slb, NULL);
 	} else {
 		H5Sselect_none(eSpace);
-- 
2.43.0


From 8417ff43c523d77c67e6d9bcd7647cf1f812602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 067/122] fix: asking for the projections of the energy and of
 its square ended the program

---
 lib/meas/measa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 84ad710..cbaff02 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -274,7 +274,7 @@ MeasData	Measureme  (Scalar *axiona, MeasInfo info)
 							else {
 								projectField	(axiona, [] (float x) -> float { return x*x ; } );
 							}
-								writePMapHdf5 (axiona);
+								writePMapHdf5s (axiona, (char *) ((info.maty & MAPT_XYPE) ? "/map/P2" : "/map/P"));
 				}
 			}
 
-- 
2.43.0


From af8a48c6bb9c4aff701022b249af3a54450fe8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 068/122] fix: parseDims used uninitialised flags and could not
 set most verbosity levels

---
 lib/utils/parse.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index c4ef53e..e9a29ea 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -520,7 +520,7 @@ void	PrintMEoptions()
 
 int	parseDims (int argc, char *argv[])
 {
-	bool	brank, bcdev, blog, bverb = false;
+	bool	brank = false, bcdev = false, blog = false, bverb = false;
 	int	procArgs = 0;
 
 	/* We collect the arguments for initComms:
@@ -603,12 +603,12 @@ int	parseDims (int argc, char *argv[])
 				printf("Error: I need a verbosity level.\n");
 				exit(1);
 			}
-			int mocho;
+			int mocho = VERB_NORMAL;
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&mocho));
 
-			if (mocho > VERB_HIGH)      verb = VERB_HIGH;      //2
-			if (mocho > VERB_PARANOID)  verb = VERB_PARANOID;  //3
-			if (mocho < VERB_SILENT)    verb = VERB_SILENT;    //0
+			if (mocho < VERB_SILENT)    mocho = VERB_SILENT;    //0
+			if (mocho > VERB_PARANOID)  mocho = VERB_PARANOID;  //3
+			verb = (VerbosityLevel) mocho;
 
 
 			i++;
-- 
2.43.0


From a862673f6348d445aa1640a43172966c215dffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 069/122] fix: --frw was ignored when a configuration is read

---
 lib/utils/parse.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index e9a29ea..2c94d10 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -777,6 +777,7 @@ int	parseArgs (int argc, char *argv[])
 				printf("Warning: Contracting Universe?\n");
 			}
 
+			uFR = true;
 			PARSE2;
 		}
 
-- 
2.43.0


From fb381fe793c73c4d2b3ceffbc9e068347224dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 070/122] fix: --wkb compared its value with the final time
 before --zf was read

---
 lib/utils/parse.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 2c94d10..b8ad277 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -82,6 +82,7 @@ bool uMI      = false;
 bool uFR      = false;
 bool ufA      = false;
 bool uexCosm  = false;
+bool uWkb     = false;
 bool spectral = false;
 bool fpectral = false;
 bool mink			= false;
@@ -1124,12 +1125,7 @@ int	parseArgs (int argc, char *argv[])
 
 			wkb2z = atof(argv[i+1]);
 
-			if (wkb2z < zFinl)
-			{
-				printf("Error: z_wkb must be > zf. No WKB will be done!\n");
-				wkb2z = -1.0	;
-				exit(1);
-			}
+			uWkb = true;
 
 			PARSE2;
 		}
@@ -2629,6 +2625,12 @@ if (icdatst.cType == CONF_SMOOTH )
 		zrestore = 1.e+20;
 	}
 
+	if (uWkb && (wkb2z < zFinl))
+	{
+		printf("Error: z_wkb must be > zf. No WKB will be done!\n");
+		exit(1);
+	}
+
 	/* make sure that endredmap endredmapwkb makes sense */
 	{
 		int siN = (int) sizeN;
-- 
2.43.0


From 8f12ff23df56a22da289b63d1cb8b70fdaee05fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 071/122] fix: options without their value read past the end of
 the arguments

---
 lib/utils/parse.cpp | 58 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index b8ad277..6e660f3 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -814,12 +814,24 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--sliceprint"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for %s.\n", argv[i]);
+				exit(1);
+			}
+
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&slicepp));
 			PARSE2;
 		}
 
 		if (!strcmp(argv[i], "--p2Dslice"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for %s.\n", argv[i]);
+				exit(1);
+			}
+
 			p2dmapo = true ;
 			defaultmeasType |= MEAS_2DMAP;
 			maty |= MAPT_XYMV;
@@ -830,6 +842,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--p2DsliceYZ"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for %s.\n", argv[i]);
+				exit(1);
+			}
+
 			p2dmapo = true ;
 			defaultmeasType |= MEAS_2DMAP;
 			maty |= MAPT_YZMV;
@@ -915,6 +933,12 @@ int	parseArgs (int argc, char *argv[])
 
     if (!strcmp(argv[i], "--idxprint"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for %s.\n", argv[i]);
+				exit(1);
+			}
+
 			sscanf(argv[i+1], "%lu", reinterpret_cast<size_t*>(&deninfa.idxprint));
 			PARSE2;
 		}
@@ -1136,6 +1160,7 @@ int	parseArgs (int argc, char *argv[])
 			{
 				endredmap = 256 ;
 				printf("No new sizeN input for final reducemap. Set to default = 256\n");
+				PARSE1;
 			}
 			else{
 				endredmap = atof(argv[i+1]);
@@ -1150,6 +1175,7 @@ int	parseArgs (int argc, char *argv[])
 			{
 				endredmapwkb = 256 ;
 				printf("No new sizeN input for final reducemap (wkb). Set to default = 256\n");
+				PARSE1;
 			}
 			else{
 				endredmapwkb = atof(argv[i+1]);
@@ -1965,7 +1991,7 @@ int	parseArgs (int argc, char *argv[])
 			icdatst.axtinfo.gradients    = false; //default
 
 			char ff[] = "-";
-			if (argv[i+1][0] == ff[0]){
+			if (i+1 == argc || argv[i+1][0] == ff[0]){
 				icdatst.axtinfo.nMax = -2; //default
 				PARSE1;
 			}
@@ -1978,6 +2004,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.th_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for %s.\n", argv[i]);
+				exit(1);
+			}
+
 			// sscanf(argv[i+1], "%zu", &icdatst.axtinfo.th_threshold);
       icdatst.axtinfo.th_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -1985,6 +2017,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.vh_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for %s.\n", argv[i]);
+				exit(1);
+			}
+
 			// sscanf(argv[i+1], "%zu", &icdatst.axtinfo.ve_threshold);
       icdatst.axtinfo.ve_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -1992,6 +2030,12 @@ int	parseArgs (int argc, char *argv[])
 
     if (!strcmp(argv[i], "--axitontracker.con_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for %s.\n", argv[i]);
+				exit(1);
+			}
+
 			// sscanf(argv[i+1], "%zu", &icdatst.axtinfo.con_threshold);
       icdatst.axtinfo.con_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -1999,6 +2043,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.ct_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for %s.\n", argv[i]);
+				exit(1);
+			}
+
 			sscanf(argv[i+1], "%zu", &icdatst.axtinfo.ct_threshold);
       icdatst.axtinfo.ct_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -2006,6 +2056,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.printradius"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for %s.\n", argv[i]);
+				exit(1);
+			}
+
 			sscanf(argv[i+1], "%zu", &icdatst.axtinfo.printradius);
 			PARSE2;
 		}
-- 
2.43.0


From f3bd0b6eff5782f358ef4a3b18792be0ece95d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 072/122] fix: the axiton tracker options depended on their
 order and overwrote each other

---
 lib/utils/parse.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 6e660f3..cd3f3c5 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -696,6 +696,12 @@ int	parseArgs (int argc, char *argv[])
 	icdatst.fieldindex=FIELD_NO;
 	// Axiton tracker info. default: disabled
 	icdatst.axtinfo.nMax = -1;
+	icdatst.axtinfo.th_threshold  = -1.;   //default
+	icdatst.axtinfo.ve_threshold  = -1.;   //default
+	icdatst.axtinfo.con_threshold = -1.;   //default
+	icdatst.axtinfo.ct_threshold  = -1.;   //default
+	icdatst.axtinfo.printradius   = 1;     //default
+	icdatst.axtinfo.gradients     = false; //default
 
 	/* Default measurements */
 	deninfa.idxprint  = 0;
@@ -1984,19 +1990,13 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker"))
 		{
-			icdatst.axtinfo.th_threshold = -1.;   //default
-			icdatst.axtinfo.ve_threshold = -1.;   //default
-			icdatst.axtinfo.ct_threshold = -1.;   //default
-			icdatst.axtinfo.printradius  = 1;     //default
-			icdatst.axtinfo.gradients    = false; //default
-
 			char ff[] = "-";
 			if (i+1 == argc || argv[i+1][0] == ff[0]){
 				icdatst.axtinfo.nMax = -2; //default
 				PARSE1;
 			}
 			else {
-				sscanf(argv[i+1], "%zu", &icdatst.axtinfo.nMax);
+				sscanf(argv[i+1], "%d", &icdatst.axtinfo.nMax);
 				PARSE2;
 			}
 
@@ -2049,7 +2049,6 @@ int	parseArgs (int argc, char *argv[])
 				exit(1);
 			}
 
-			sscanf(argv[i+1], "%zu", &icdatst.axtinfo.ct_threshold);
       icdatst.axtinfo.ct_threshold = atof(argv[i+1]);
 			PARSE2;
 		}
@@ -2062,14 +2061,14 @@ int	parseArgs (int argc, char *argv[])
 				exit(1);
 			}
 
-			sscanf(argv[i+1], "%zu", &icdatst.axtinfo.printradius);
+			sscanf(argv[i+1], "%d", &icdatst.axtinfo.printradius);
 			PARSE2;
 		}
 
 		if (!strcmp(argv[i], "--axitontracker.gradients"))
 		{
 			icdatst.axtinfo.gradients = true;
-			PARSE2;
+			PARSE1;
 		}
 
 		/* IC's*/
-- 
2.43.0


From 982c35a4d786133ceae494ec72a806caf5148f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 073/122] fix: negative values of unsigned options were not
 rejected

---
 lib/utils/parse.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index cd3f3c5..49b3fe2 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -1781,7 +1781,7 @@ int	parseArgs (int argc, char *argv[])
 
 			MeasureType loco = (MeasureType) atoi(argv[i+1]);
 
-			if (loco < 0)
+			if (((int) loco) < 0)
 			{
 				printf("Error: Measurement type must be >= 0.\n");
 				exit(1);
@@ -1797,7 +1797,7 @@ int	parseArgs (int argc, char *argv[])
 
 			MeasureType loco = (MeasureType) atoi(argv[i+1]);
 
-			if (loco < 0)
+			if (((int) loco) < 0)
 			{
 				printf("Error: Measurement 2theta type must be >= 0.\n");
 				exit(1);
@@ -1832,7 +1832,7 @@ int	parseArgs (int argc, char *argv[])
 
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&spmask));
 
-			if (spmask < 0)
+			if (((int) spmask) < 0)
 			{
 				printf("Error: Spectrum masking type is a positive integer.\n");
 				exit(1);
@@ -1851,7 +1851,7 @@ int	parseArgs (int argc, char *argv[])
 
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&nrt));
 
-			if (nrt < 0)
+			if (((int) nrt) < 0)
 			{
 				printf("Error: Spectrum masking type is a positive integer.\n");
 				exit(1);
@@ -1939,7 +1939,7 @@ int	parseArgs (int argc, char *argv[])
 
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&strmeas));
 
-			if (strmeas < 0)
+			if (((int) strmeas) < 0)
 			{
 				printf("Error: String measurement type is a positive integer.\n");
 				exit(1);
@@ -2084,7 +2084,7 @@ int	parseArgs (int argc, char *argv[])
 			sscanf(argv[i+1], "%zu", &kMax); //legacy
 			sscanf(argv[i+1], "%zu", &icdatst.kMax);
 
-			if (kMax < 0)
+			if (((long) kMax) < 0)
 			{
 				printf("Error: the maximum momentum must be equal or greater than zero.\n");
 				exit(1);
@@ -2104,7 +2104,7 @@ int	parseArgs (int argc, char *argv[])
 			sscanf(argv[i+1], "%zu", &iter);
 			sscanf(argv[i+1], "%zu", &icdatst.siter);
 
-			if (iter < 0)
+			if (((long) iter) < 0)
 			{
 				printf("Error: Number of iterations must be equal or greater than zero.\n");
 				exit(1);
-- 
2.43.0


From ce160ab7135984c606cb2daaf3a59ef0c9ee7dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 074/122] fix: an unknown gadget type was ignored

---
 lib/utils/parse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 49b3fe2..9f31f5e 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -2290,6 +2290,11 @@ int	parseArgs (int argc, char *argv[])
 			{
 				gadType = VOID;
 			}
+			else
+			{
+				printf("Error: Unrecognized gadget type %s\n", argv[i+1]);
+				exit(1);
+			}
 
 			PARSE2;
 		}
-- 
2.43.0


From 51a746c2dd4353d90af8707006663da443e682d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 075/122] fix: --msa overwrote the exponent given with --lz2e

---
 lib/utils/parse.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 9f31f5e..cc62f39 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -83,6 +83,7 @@ bool uFR      = false;
 bool ufA      = false;
 bool uexCosm  = false;
 bool uWkb     = false;
+bool uLz2e    = false;
 bool spectral = false;
 bool fpectral = false;
 bool mink			= false;
@@ -1593,7 +1594,8 @@ int	parseArgs (int argc, char *argv[])
 
 			uMsa  = true;
 			lType = LAMBDA_Z2; //obsolete?
-      lz2e  = 2.0;
+			if (!uLz2e)
+				lz2e  = 2.0;
 			PARSE2;
 		}
 
@@ -1606,6 +1608,7 @@ int	parseArgs (int argc, char *argv[])
 			}
 
 			lz2e = atof(argv[i+1]);
+			uLz2e = true;
 
 			PARSE2;
 		}
-- 
2.43.0


From f38692de9c056bdc742a578444876a7c851282b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 076/122] fix: --p3D and --redmp without a value swallowed the
 next option

---
 lib/utils/parse.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index cc62f39..8681ef5 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -791,7 +791,7 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--p3D"))
 		{
-			if (i+1 == argc)
+			if (i+1 == argc || argv[i+1][0] == '-')
 			{
 				printf("Warning: p3D set by default to 0 [no 00000 and final configuration files].\n");
 				deninfa.printconf = PRINTCONF_NONE ;
@@ -1163,7 +1163,7 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--redmp"))
 		{
-			if (i+1 == argc)
+			if (i+1 == argc || argv[i+1][0] == '-')
 			{
 				endredmap = 256 ;
 				printf("No new sizeN input for final reducemap. Set to default = 256\n");
@@ -1178,7 +1178,7 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--redmpwkb"))
 		{
-			if (i+1 == argc)
+			if (i+1 == argc || argv[i+1][0] == '-')
 			{
 				endredmapwkb = 256 ;
 				printf("No new sizeN input for final reducemap (wkb). Set to default = 256\n");
-- 
2.43.0


From 0f5b88622161b8b2ce32f3ad722e96afa10332bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 077/122] fix: --meas2theta without its value read past the end
 of the arguments

---
 lib/utils/parse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 8681ef5..26a9970 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -1797,6 +1797,11 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--meas2theta"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for %s.\n", argv[i]);
+				exit(1);
+			}
 
 			MeasureType loco = (MeasureType) atoi(argv[i+1]);
 
-- 
2.43.0


From 9f96a2d57f383446169397c08a37f0da0a751839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 078/122] fix: an angle difference of exactly half a period was
 reduced to zero

---
 include/utils/triSimd.h | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index 427099d..096d7bd 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -499,17 +499,11 @@ inline _MData_	opCode(mod_pd, _MData_ &x, const _MData_ &md)
 	ret = opCode(mask_add_pd, ret,                opCode(cmp_pd_mask, min, xM2, _CMP_EQ_OQ), ret,   xM);
 	ret = opCode(mask_add_pd, ret,                opCode(cmp_pd_mask, min, x2,  _CMP_EQ_OQ), ret,   x);
 #elif   defined(__AVX__)
-	ret = opCode(add_pd,
-		opCode(add_pd,
-			opCode(and_pd, opCode(cmp_pd, min, xP2, _CMP_EQ_OS), xP),
-			opCode(and_pd, opCode(cmp_pd, min, xM2, _CMP_EQ_OS), xM)),
-		opCode(and_pd, opCode(cmp_pd, min, x2, _CMP_EQ_OS), x));
+	ret = opCode(blendv_pd, xM,  xP, opCode(cmp_pd, min, xP2, _CMP_EQ_OS));
+	ret = opCode(blendv_pd, ret, x,  opCode(cmp_pd, min, x2,  _CMP_EQ_OS));
 #else
-	ret = opCode(add_pd,
-		opCode(add_pd,
-			opCode(and_pd, opCode(cmpeq_pd, min, xP2), xP),
-			opCode(and_pd, opCode(cmpeq_pd, min, xM2), xM)),
-		opCode(and_pd, opCode(cmpeq_pd, min, x2), x));
+	ret = opCode(blendv_pd, xM,  xP, opCode(cmpeq_pd, min, xP2));
+	ret = opCode(blendv_pd, ret, x,  opCode(cmpeq_pd, min, x2));
 #endif
 	return	ret;
 }
@@ -886,17 +880,11 @@ inline _MData_	opCode(mod_ps, _MData_ &x, const _MData_ &md)
 	ret = opCode(mask_add_ps, ret,                opCode(cmp_ps_mask, min, xM2, _CMP_EQ_OQ), ret,                xM);
 	ret = opCode(mask_add_ps, ret,                opCode(cmp_ps_mask, min, x2,  _CMP_EQ_OQ), ret,                x);
 #elif   defined(__AVX__)
-	ret = opCode(add_ps,
-		opCode(add_ps,
-			opCode(and_ps, opCode(cmp_ps, min, xP2, _CMP_EQ_OQ), xP),
-			opCode(and_ps, opCode(cmp_ps, min, xM2, _CMP_EQ_OQ), xM)),
-		opCode(and_ps, opCode(cmp_ps, min, x2, _CMP_EQ_OQ), x));
+	ret = opCode(blendv_ps, xM,  xP, opCode(cmp_ps, min, xP2, _CMP_EQ_OQ));
+	ret = opCode(blendv_ps, ret, x,  opCode(cmp_ps, min, x2,  _CMP_EQ_OQ));
 #else
-	ret = opCode(add_ps,
-		opCode(add_ps,
-			opCode(and_ps, opCode(cmpeq_ps, min, xP2), xP),
-			opCode(and_ps, opCode(cmpeq_ps, min, xM2), xM)),
-		opCode(and_ps, opCode(cmpeq_ps, min, x2), x));
+	ret = opCode(blendv_ps, xM,  xP, opCode(cmpeq_ps, min, xP2));
+	ret = opCode(blendv_ps, ret, x,  opCode(cmpeq_ps, min, x2));
 #endif
 
 	return	ret;
-- 
2.43.0


From 37751eadd2beebddb0fcd214cd53b1157fe375d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 079/122] fix: the double precision cosine failed for angles
 above 2^23 pi

---
 include/utils/triSimd.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index 096d7bd..98a9043 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -63,6 +63,7 @@ constexpr double s8_d  = -0.166666666666666657414808;
 constexpr _MData_ rPid	    = { M_1_PI/(1<<24), M_1_PI/(1<<24), M_1_PI/(1<<24), M_1_PI/(1<<24), M_1_PI/(1<<24), M_1_PI/(1<<24), M_1_PI/(1<<24), M_1_PI/(1<<24) };
 constexpr _MData_ dPid	    = { M_1_PI/(1<<23), M_1_PI/(1<<23), M_1_PI/(1<<23), M_1_PI/(1<<23), M_1_PI/(1<<23), M_1_PI/(1<<23), M_1_PI/(1<<23), M_1_PI/(1<<23) };
 constexpr _MData_ rCte      = {   16777216.,   16777216.,   16777216.,   16777216.,   16777216.,   16777216.,   16777216.,   16777216. };
+constexpr _MData_ dCte      = {    8388608.,    8388608.,    8388608.,    8388608.,    8388608.,    8388608.,    8388608.,    8388608. };
 constexpr _MData_ oPid      = {     1./M_PI,     1./M_PI,     1./M_PI,     1./M_PI,     1./M_PI,     1./M_PI,     1./M_PI,     1./M_PI };
 constexpr _MData_ zeroNegd  = {        -0.0,        -0.0,        -0.0,        -0.0,        -0.0,        -0.0,        -0.0,        -0.0 };
 constexpr _MData_ dHlf      = {         0.5,         0.5,         0.5,         0.5,         0.5,         0.5,         0.5,         0.5 };
@@ -343,13 +344,13 @@ inline _MData_	opCode(cos_pd, _MData_ x)
 
 #if	defined(__AVX512F__)
 	uh = opCode(roundscale_pd, opCode(fmsub_pd, x, dPid, rPid), 0x03);
-	qi = opCode(cvtpd_epi32, opCode(fmadd_pd, x, oPid, opCode(fnmsub_pd, uh, dPid, dHlf)));
+	qi = opCode(cvtpd_epi32, opCode(fmadd_pd, x, oPid, opCode(fnmsub_pd, uh, dCte, dHlf)));
 #elif	defined(__FMA__)
 	uh = opCode(round_pd, opCode(fmsub_pd, x, dPid, rPid), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
-	qi = opCode(cvtpd_epi32, opCode(fmadd_pd, x, oPid, opCode(fnmsub_pd, uh, dPid, dHlf)));
+	qi = opCode(cvtpd_epi32, opCode(fmadd_pd, x, oPid, opCode(fnmsub_pd, uh, dCte, dHlf)));
 #else
 	uh = opCode(round_pd, opCode(sub_pd, opCode(mul_pd, x, dPid), rPid), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
-	qi = opCode(cvtpd_epi32, opCode(sub_pd, opCode(mul_pd, x, oPid), opCode(add_pd, opCode(mul_pd, uh, dPid), dHlf)));
+	qi = opCode(cvtpd_epi32, opCode(sub_pd, opCode(mul_pd, x, oPid), opCode(add_pd, opCode(mul_pd, uh, dCte), dHlf)));
 #endif
 	uh = opCode(mul_pd, uh, rCte);
 #if	defined(__AVX__)
-- 
2.43.0


From 21e8d94e31683700089ed3f17d06b79539e628f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 080/122] fix: the vector functions did not compile without AVX

---
 include/utils/triSimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index 98a9043..80bd16b 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -478,7 +478,7 @@ _MData_	ret;
 #else
 	ret = opCode(add_pd,
 			opCode(and_pd, opCode(cmpge_pd, c, d), a),
-			opCode(and_pd, opCode(cmplt_pd, c, d), b)));
+			opCode(and_pd, opCode(cmplt_pd, c, d), b));
 #endif
 
 	return	ret;
@@ -859,7 +859,7 @@ _MData_	ret;
 #else
 	ret = opCode(add_ps,
 			opCode(and_ps, opCode(cmpge_ps, c, d), a),
-			opCode(and_ps, opCode(cmplt_ps, c, d), b)));
+			opCode(and_ps, opCode(cmplt_ps, c, d), b));
 #endif
 
 	return	ret;
-- 
2.43.0


From 1cb78d5943b8c461039fa867e208a6cc401d199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 081/122] fix: the same difference of half a period with AVX512

---
 include/utils/triSimd.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index 80bd16b..7d987a7 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -496,9 +496,8 @@ inline _MData_	opCode(mod_pd, _MData_ &x, const _MData_ &md)
 
 	min = opCode(min_pd, opCode(min_pd, xP2, xM2), x2);
 #ifdef	__AVX512F__
-	ret = opCode(mask_add_pd, opCode(setzero_pd), opCode(cmp_pd_mask, min, xP2, _CMP_EQ_OQ), opCode(setzero_pd), xP);
-	ret = opCode(mask_add_pd, ret,                opCode(cmp_pd_mask, min, xM2, _CMP_EQ_OQ), ret,   xM);
-	ret = opCode(mask_add_pd, ret,                opCode(cmp_pd_mask, min, x2,  _CMP_EQ_OQ), ret,   x);
+	ret = opCode(mask_blend_pd, opCode(cmp_pd_mask, min, xP2, _CMP_EQ_OQ), xM,  xP);
+	ret = opCode(mask_blend_pd, opCode(cmp_pd_mask, min, x2,  _CMP_EQ_OQ), ret, x);
 #elif   defined(__AVX__)
 	ret = opCode(blendv_pd, xM,  xP, opCode(cmp_pd, min, xP2, _CMP_EQ_OS));
 	ret = opCode(blendv_pd, ret, x,  opCode(cmp_pd, min, x2,  _CMP_EQ_OS));
@@ -877,9 +876,8 @@ inline _MData_	opCode(mod_ps, _MData_ &x, const _MData_ &md)
 
 	min = opCode(min_ps, opCode(min_ps, xP2, xM2), x2);
 #if	defined(__AVX512F__)
-	ret = opCode(mask_add_ps, opCode(setzero_ps), opCode(cmp_ps_mask, min, xP2, _CMP_EQ_OQ), opCode(setzero_ps), xP);
-	ret = opCode(mask_add_ps, ret,                opCode(cmp_ps_mask, min, xM2, _CMP_EQ_OQ), ret,                xM);
-	ret = opCode(mask_add_ps, ret,                opCode(cmp_ps_mask, min, x2,  _CMP_EQ_OQ), ret,                x);
+	ret = opCode(mask_blend_ps, opCode(cmp_ps_mask, min, xP2, _CMP_EQ_OQ), xM,  xP);
+	ret = opCode(mask_blend_ps, opCode(cmp_ps_mask, min, x2,  _CMP_EQ_OQ), ret, x);
 #elif   defined(__AVX__)
 	ret = opCode(blendv_ps, xM,  xP, opCode(cmp_ps, min, xP2, _CMP_EQ_OQ));
 	ret = opCode(blendv_ps, ret, x,  opCode(cmp_ps, min, x2,  _CMP_EQ_OQ));
-- 
2.43.0


From 9ec8d48c94a9aeed472de4a7e50238464e57913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 082/122] fix: the log lost, repeated or corrupted messages
 logged while it was being flushed, sent by other ranks or longer than the
 buffer

---
 include/utils/logger.h | 227 ++++++++++++++++++++++++-----------------
 lib/utils/logger.cpp   |   1 +
 2 files changed, 132 insertions(+), 96 deletions(-)

diff --git a/include/utils/logger.h b/include/utils/logger.h
index e643cd4..a525d82 100644
--- a/include/utils/logger.h
+++ b/include/utils/logger.h
@@ -7,6 +7,9 @@
 	#include<fstream>
 	#include<iomanip>
 	#include<vector>
+	#include<list>
+	#include<mutex>
+	#include<condition_variable>
 	#include<chrono>
 	#include<memory>
 	#include<cstddef>
@@ -45,17 +48,27 @@
 
 				mutable MPI_Request req;
 
-				char		packed[MSG_SIZE];						// For serialization and MPI
+				std::vector<char>	packed;						// For serialization and MPI
 
 			public:
 					Msg(LogLevel logLevel, const int tIdx, const char * format, ...) noexcept : tIdx(tIdx), size(0), data(""), logLevel(logLevel) {
-					char buffer[MSG_SIZE - basePack];
-					va_list args;
+					char buffer[MSG_SIZE];
+					va_list args, again;
 					va_start (args, format);
-					size = vsnprintf (buffer, MSG_SIZE - 1 - basePack, format, args);
+					va_copy  (again, args);
+					size = std::max(0, vsnprintf (buffer, MSG_SIZE, format, args));
 					va_end (args);
 
-					data.assign(buffer, size);
+					if (size < MSG_SIZE) {
+						data.assign(buffer, size);
+					} else {	// It did not fit in the buffer
+						data.resize(size + 1);
+						vsnprintf (&data[0], size + 1, format, again);
+						data.resize(size);
+					}
+					va_end (again);
+
+					req = MPI_REQUEST_NULL;
 
 					timestamp = std::chrono::high_resolution_clock::now();
 					mRnk = commRank();
@@ -99,16 +112,17 @@
 				inline	LogLevel	level()  const { return logLevel; }
 
 				inline	char*		pack() {
-					ptrdiff_t *sPack = static_cast<ptrdiff_t*>(static_cast<void*>(packed));
+					packed.resize(basePack + data.length());
+					ptrdiff_t *sPack = static_cast<ptrdiff_t*>(static_cast<void*>(packed.data()));
 					sPack[0] = std::chrono::time_point_cast<std::chrono::microseconds> (timestamp).time_since_epoch().count();
 					sPack[1] = tIdx;
 					sPack[2] = (ptrdiff_t) logLevel;
 					sPack[3] = data.length();
 					sPack[4] = mRnk;
 
-					memcpy (packed+basePack, data.data(), data.length());
+					memcpy (packed.data()+basePack, data.data(), data.length());
 
-					return	packed;
+					return	packed.data();
 				}
 
 				inline	MPI_Request&	mpiReq() { return req; }
@@ -119,10 +133,14 @@
 				std::chrono::time_point<std::chrono::high_resolution_clock> logStart;
 				std::ofstream		oFile;
 				const LogMpi		mpiType;
-				std::vector<Msg>	msgStack;
+				std::list<Msg>		msgStack;		// A list, the messages being sent must stay where they are
 				const VerbosityLevel	verbose;
 				bool			logRunning;
-				volatile bool		logWriting ;
+				bool			mustFlush;
+				long long int		nMpi;			// Messages sent to (received by, in rank 0) rank 0
+				std::recursive_mutex	logMutex;		// Protects everything here, any thread can log
+				std::condition_variable_any	logStop;
+				std::thread		flusher;
 
 				void	printMsg	(const Msg &myMsg) noexcept {
 					if (myMsg.time(logStart)/1000 < 1000000) {
@@ -138,36 +156,16 @@
 
 				/* We only allow thread 0 to write to disk, but any other thread can put messages in the stack		*/
 				/* The stack is flushed if there is an error on any thread because the variable mustFlush is shared	*/
-				void	flushMsg	() noexcept {
-					if (omp_get_thread_num() != 0)
-						return;
-
-					while (logWriting == true);
-
-					logWriting = true;
-					auto it = msgStack.cbegin();
-
-					if (it != msgStack.cend()) {
-						printMsg(*it);
-						msgStack.erase(it);
-					}
-					logWriting = false;
-				}
-
 				void	flushStack	() noexcept {
 					if (omp_get_thread_num() != 0)
 						return;
 
-					while (logWriting == true);
-
-					logWriting = true;
-					std::sort(msgStack.begin(), msgStack.end(), [logStart = logStart](Msg a, Msg b) { return (a.time(logStart) < b.time(logStart)); } );
+					msgStack.sort([logStart = logStart](const Msg &a, const Msg &b) { return (a.time(logStart) < b.time(logStart)); } );
 
 					for (auto it = msgStack.cbegin(); it != msgStack.cend(); it++)
 						printMsg(*it);
 
 					msgStack.clear();
-					logWriting = false;
 				}
 
 				void	flushDisk	() {
@@ -190,18 +188,16 @@
 						MPI_Iprobe(MPI_ANY_SOURCE, level, MPI_COMM_WORLD, &flag, &status);
 
 						if (flag) {
-							char packed[MSG_SIZE];
 							int  mSize;
 							auto srcRank = status.MPI_SOURCE;
 
 							// Get message
 							MPI_Get_count(&status, MPI_CHAR, &mSize);
-							MPI_Recv(packed, mSize, MPI_CHAR, srcRank, level, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
-							//Msg msg(static_cast<void*>(packed));
+							std::vector<ptrdiff_t> packed(mSize/sizeof(ptrdiff_t) + 1);
+							MPI_Recv(packed.data(), mSize, MPI_CHAR, srcRank, level, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
 							// Put the message in the stack
-							while (logWriting == true) {}
-							//msgStack.push_back(std::move(msg));
-							msgStack.emplace_back(static_cast<void*>(packed));
+							msgStack.emplace_back(static_cast<void*>(packed.data()));
+							nMpi++;
 							msgPending = true;
 						}
 					}	while (flag);
@@ -209,12 +205,51 @@
 					return	msgPending;
 				}
 
-			public:
-				 Logger(const int index, const LogMpi mpiType, const VerbosityLevel verbosity) : mpiType(mpiType), verbose(verbosity) {
+				/* Starts sending the messages to rank 0, and removes those already sent from the stack */
+				void	sendMpiMsg	(bool wait) {
+					if (omp_get_thread_num() != 0)
+						return;
+
+					for (auto it = msgStack.begin(); it != msgStack.end();) {
+						int flag = 0;
+						MPI_Request& req = it->mpiReq();
+						if (req == MPI_REQUEST_NULL) {
+							MPI_Isend(it->pack(), it->msg().length() + basePack, MPI_CHAR, 0, it->level() == LOG_ERROR ? LOG_ERROR : LOG_MSG, MPI_COMM_WORLD, &req);
+							nMpi++;
+						}
+
+						if (wait) {
+							MPI_Wait(&req, MPI_STATUS_IGNORE);
+							flag = 1;
+						} else
+							MPI_Test(&req, &flag, MPI_STATUS_IGNORE);
+
+						if (flag)
+							it = msgStack.erase(it);
+						else
+							it++;
+					}
+				}
+
+				bool	mpiAlive	() const {
+					int noMpi;
+					MPI_Finalized(&noMpi);
+					return	(noMpi == 0);
+				}
+
+				void	join		() {
+					if (flusher.joinable()) {
+						{
+							std::lock_guard<std::recursive_mutex> lock(logMutex);
+							logRunning = false;
+						}
+						logStop.notify_all();
+						flusher.join();
+					}
+				}
 
-					 /* LogWriting is created false to avoid inf-loops */
-					 // printf("Rank %d Logger started %s\n", commRank(), logWriting ? "true" : "false" );
-					logWriting = false ;
+			public:
+				 Logger(const int index, const LogMpi mpiType, const VerbosityLevel verbosity) : mpiType(mpiType), verbose(verbosity), logRunning(false), mustFlush(false), nMpi(0) {
 
 					bool			test;
 					struct stat		buffer;
@@ -239,26 +274,57 @@
 						oFile.open(ss.str().c_str(), std::ofstream::out);
 						banner();
 
-						std::thread([&](){
+						/* MPI belongs to the main thread, this one only writes to disk */
+						flusher = std::thread([this](){
+							std::unique_lock<std::recursive_mutex> lock(logMutex);
 							while (logRunning) {
-								std::this_thread::sleep_for(std::chrono::microseconds(logFreq));
-								flushLog();
+								logStop.wait_for(lock, std::chrono::microseconds(logFreq));
+								flushStack();
+								flushDisk();
 							}
-						}).detach();
+						});
 					}
 
 				}
 
-				// Stops logger in preparation for an MPI shutdown
-				void	stop		() { logRunning = false; usleep(logFreq); }
+				// Stops logger in preparation for an MPI shutdown. All the ranks must call it
+				void	stop		() {
+					join();
+
+					std::lock_guard<std::recursive_mutex> lock(logMutex);
+
+					if (mpiType == ALL_RANKS && commSize() > 1 && mpiAlive()) {
+						long long int total = 0;
+
+						if (commRank() == 0) {
+							MPI_Reduce(MPI_IN_PLACE, &total, 1, MPI_LONG_LONG_INT, MPI_SUM, 0, MPI_COMM_WORLD);
+							while (nMpi < total) {
+								getMpiMsg (LOG_MSG);
+								getMpiMsg (LOG_ERROR);
+							}
+						} else {
+							sendMpiMsg (false);
+							MPI_Reduce(&nMpi, nullptr, 1, MPI_LONG_LONG_INT, MPI_SUM, 0, MPI_COMM_WORLD);
+							sendMpiMsg (true);
+						}
+						nMpi = 0;
+					}
+				}
 
 				// Receives pending MPI messages and flushes them to disk
 				void	flushLog	() {
 					if (omp_get_thread_num() != 0)
 						return;
 
+					std::lock_guard<std::recursive_mutex> lock(logMutex);
+
 					// Get all the messages
-					if (mpiType == ALL_RANKS) {
+					if (mpiType == ALL_RANKS && commSize() > 1 && mpiAlive()) {
+						if (commRank() != 0) {
+							sendMpiMsg (false);
+							return;
+						}
+
 						getMpiMsg (LOG_MSG);
 						getMpiMsg (LOG_ERROR);
 					}
@@ -269,18 +335,12 @@
 
 				~Logger()
 				{
-					int noMpi;
-					MPI_Finalized(&noMpi);
-					if (noMpi == 0)
-						flushLog();
-					// else
-					// 	printf("rank %d MPI not finalised\n ",commRank());
+					join();
+					flushLog();
 
 					if (commRank()==0)
-						{ stop();
-							oFile.close();
-						}
-					}
+						oFile.close();
+				}
 
 				auto	runTime() {
 					auto	cTime = std::chrono::high_resolution_clock::now();
@@ -292,7 +352,6 @@
 				template<typename... Fargs>
 				void	operator()(LogLevel level, const char * file, const int line, const char * format, Fargs... vars)
 				{
-					static bool       mustFlush = false;
 					static const int  myRank    = commRank();
 					static const int  nSplit    = commSize();
 					static const bool mpiLogger = ((nSplit > 1) && (mpiType == ALL_RANKS));
@@ -300,6 +359,8 @@
 					if (mpiType == ZERO_RANK && myRank != 0)
 						return;
 
+					std::lock_guard<std::recursive_mutex> lock(logMutex);
+
 					switch	(level) {
 
 						case	LOG_MSG:
@@ -314,6 +375,10 @@
 
 						case	LOG_DEBUG:
 						{
+							if (myRank != 0) {
+								msgStack.push_back(std::move(Msg(level, omp_get_thread_num(), format, vars...)));
+								break;
+							}
 							Msg	msg(level, omp_get_thread_num(), format, vars...);
 							printMsg(msg);										// We directly write to disk
 							flushDisk();
@@ -331,50 +396,20 @@
 						}
 					}
 
-					if (mpiLogger) {	// If we are using MPI
+					if (mpiLogger && omp_get_thread_num() == 0 && mpiAlive()) {	// If we are using MPI
 						if (myRank == 0) {
 							// Get all the pending error messages. If found any, prepare to flush the stack
 							if (getMpiMsg (LOG_ERROR))	// We use this if not to overwrite mustFlush
 								mustFlush = true;
+							if (mustFlush)			// Get all the standard messages
+								getMpiMsg(LOG_MSG);
 						} else {
-							/* If loglevel is ERROR, we block comms until all the pending messages are sent and  we clear the stack */
-							if (level == LOG_ERROR) {
-								for (auto it = msgStack.begin(); it != msgStack.end();) {
-									MPI_Request& req = it->mpiReq();
-									if (req == MPI_REQUEST_NULL)
-										MPI_Isend(it->pack(), it->msg().length() + basePack, MPI_CHAR, 0, level, MPI_COMM_WORLD, &req);
-									MPI_Wait(&req, MPI_STATUS_IGNORE);
-									it = msgStack.erase(it);
-								}
-								msgStack.clear();
-							} else {
-								/* As the messages are sent, we remove them from the stack */
-								for (auto it = msgStack.begin(); it != msgStack.end();) {
-									int flag = 0;
-									MPI_Request& req = it->mpiReq();
-									if (req == MPI_REQUEST_NULL) {
-										MPI_Isend(it->pack(), it->msg().length() + basePack, MPI_CHAR, 0, level, MPI_COMM_WORLD, &req);
-										it++;
-									} else {
-										MPI_Test(&req, &flag, MPI_STATUS_IGNORE);
-
-										if (flag)
-											it = msgStack.erase(it);
-										else
-											it++;
-									}
-								}
-							}
-
+							/* As the messages are sent, we remove them from the stack */
+							sendMpiMsg (false);
 						}
 					}
 
-					if (mustFlush && myRank == 0) {
-						if (mpiLogger) {	// If we are using MPI
-							// Get all the standard messages
-							getMpiMsg(LOG_MSG);
-						}
-
+					if (mustFlush && myRank == 0 && omp_get_thread_num() == 0) {
 						flushStack();
 						flushDisk();
 						mustFlush = false;
diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 7eadbb0..9734578 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -10,6 +10,7 @@ void	createLogger(const int index, const LogMpi logMpi, const VerbosityLevel ver
 	static bool	initLog = false;
 
 	if	(initLog == false) {
+		initLog = true;
 		AxionsLog::myLog = std::make_shared<AxionsLog::Logger>(index, logMpi, verbosity);
 	}	else	{
 		LogMsg(VERB_HIGH, "Logger already initialized");
-- 
2.43.0


From c473c809292c2b4783d1ba7c262dfdbaafe0dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:11 +0000
Subject: [PATCH 083/122] Revert "fix: after a restart the measurements of the
 list that were already made are not repeated"

This reverts commit c05d3f0950f021853dee84b35481d9a8fe78e8b6.
---
 test/vaxions.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/test/vaxions.cpp b/test/vaxions.cpp
index 0c10101..79bf97c 100755
--- a/test/vaxions.cpp
+++ b/test/vaxions.cpp
@@ -234,9 +234,6 @@ int	main (int argc, char *argv[])
 				i_meas++;
 				LogOut("i_meas++ initial conditions coincided with 1st measurement\n");
 		}
-		// the measurements up to the time of the restart were done before the stop
-		while (restart_flag && (i_meas+1 < measfilepar.ct.size()) && (measfilepar.ct[i_meas] <= (*axion->zV())*(1.+1.0e-10)))
-				i_meas++;
 
 	}
 
-- 
2.43.0


From 0aa08690a80634e1c33179e03c1db05c4756e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:54 +0000
Subject: [PATCH 084/122] fix: fields gave back less memory than they took,
 depending on the conversions made

---
 include/scalar/scalarField.h |  1 +
 lib/scalar/scalarField.cpp   | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/scalar/scalarField.h b/include/scalar/scalarField.h
index 58855fa..7c2d0a3 100755
--- a/include/scalar/scalarField.h
+++ b/include/scalar/scalarField.h
@@ -58,6 +58,7 @@
 
 		void	*m,   *v,   *m2,   *str;			// Cpu data
 		void	*rho, *vho, *g;								// Faxion data
+		bool	vAlloc;									// v is a block on its own, not the end of m
 #ifdef	USE_GPU
 		void	*m_d, *v_d, *m2_d;				// Gpu data
 
diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index a8d839b..0c5adad 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -128,6 +128,7 @@ const std::complex<float> If(0.,1.);
 
 	folded 	   = false;
 	M2folded 	 = false;
+	rho = vho = g = nullptr;
 	eReduced   = false;
 	mmomspace 	 = false;
 	vmomspace 	 = false;
@@ -240,6 +241,7 @@ const std::complex<float> If(0.,1.);
 			alignAlloc ((void**) &v,   mAlign, mBytes);
 			trackAlloc ((void**) &str, n3);
 			totalCPU += mBytes*2 + n3;
+			break;
 
 		case FIELD_FAXION:
 			LogMsg(VERB_NORMAL, "[sca] allocating theta, vheta, rho, vho, gra");
@@ -258,6 +260,7 @@ const std::complex<float> If(0.,1.);
 			exit(1);
 			break;
 	}
+	vAlloc = ((fieldType & (FIELD_SAXION | FIELD_PAXION | FIELD_FAXION)) != 0);	// Later the type can change, but not this
 	// MODIFICATION UNTIL HERE
 	// NOTE THAT DOES NOT AFFECT CREATION IN SAXION MODE
 
@@ -336,7 +339,7 @@ const std::complex<float> If(0.,1.);
 		exit(1);
 	}
 
-	if (str == nullptr && (fieldType & (FIELD_SAXION != 0)))
+	if (str == nullptr && ((fieldType & FIELD_SAXION) != 0))
 	{
 		LogError ("Error: couldn't allocate %lu bytes on host for the string map", n3);
 		exit(1);
@@ -354,7 +357,7 @@ const std::complex<float> If(0.,1.);
 
 	LogMsg(VERB_NORMAL, "[sca] Setting m,v to 0");
 	memset (m, 0, fSize*v3);
-	memset (v, 0, fSize*(n2*(nLz + 2)));
+	memset (v, 0, (fieldType & (FIELD_PAXION | FIELD_FAXION)) ? mBytes : vBytes);
 	if (fieldType == FIELD_FAXION){
 		memset (rho, 0, fSize*v3);
 		memset (vho, 0, fSize*v3);
@@ -544,9 +547,18 @@ const std::complex<float> If(0.,1.);
 		trackFree(m);
 //printf("%d 1 FType %d\n",commRank(),fieldType);fflush(stdout);commSync();
 
-	if (v != nullptr && (fieldType & FIELD_SAXION))
+	if (v != nullptr && vAlloc)
 		trackFree(v);
 
+	if (rho != nullptr)
+		trackFree(rho);
+
+	if (vho != nullptr)
+		trackFree(vho);
+
+	if (g != nullptr)
+		trackFree(g);
+
 //printf("%d 2\n",commRank());fflush(stdout);commSync();
 
 	if (m2 != nullptr)
-- 
2.43.0


From 7a9fc0a16478cfe9c52b0c0c2e3c40cd70e4d922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:54 +0000
Subject: [PATCH 085/122] fix: the potential never released the block of
 energies

---
 include/gravity/potentialClass.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gravity/potentialClass.h b/include/gravity/potentialClass.h
index d3b09e4..25bbfc1 100644
--- a/include/gravity/potentialClass.h
+++ b/include/gravity/potentialClass.h
@@ -274,6 +274,7 @@ LogMsg(VERB_PARANOID,"best was redfft=%d",best);
 				energy(afield,eRes,EN_MAP,0); // energy unfolded starting in m2
 				//double factor = 1/(eR[TH_KIN]...);
 				double factor = 1/(((double *) eRes)[TH_KIN] + ((double *) eRes)[TH_POT] + ((double *) eRes)[TH_GRX] + ((double *) eRes)[TH_GRY] + ((double *) eRes)[TH_GRZ]);
+				trackFree(eRes);
 				scaleField(afield,FIELD_M2,factor);
 				memmove(afield->m2Start(),afield->m2Cpu(),afield->Size()*afield->Precision());
 			}
@@ -394,6 +395,7 @@ LogMsg(VERB_PARANOID,"[GV] end GravCpu()");
 			trackAlloc(&eRes, 256);
 			energy(afield,eRes,EN_MAP,0); // energy unfolded starting in m2
 			double factor = 1/(((double *) eRes)[TH_KIN] + ((double *) eRes)[TH_POT] + ((double *) eRes)[TH_GRX] + ((double *) eRes)[TH_GRY] + ((double *) eRes)[TH_GRZ]);
+			trackFree(eRes);
 			scaleField(afield,FIELD_M2,factor);
 			memmove(afield->m2Start(),afield->m2Cpu(),afield->Size()*afield->Precision());
 		}
-- 
2.43.0


From 834680d8f2683d49267c733d57ec6e1d844e0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:54 +0000
Subject: [PATCH 086/122] fix: the hybrid potential in double precision read
 the neighbours from an uninitialised pointer

---
 include/gravity/gravityPaxionXeon.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/gravity/gravityPaxionXeon.h b/include/gravity/gravityPaxionXeon.h
index 3b21a98..7af8a4d 100644
--- a/include/gravity/gravityPaxionXeon.h
+++ b/include/gravity/gravityPaxionXeon.h
@@ -379,45 +379,45 @@
 									idxMy = ( idx + Sf - nv*XC );
 									idxPy = ( idx + nv*XC );
 
-									mPy = opCode(load_pd, &m[idxPy]);
+									mPy = opCode(load_pd, &m2h[idxPy]);
 	#ifdef	__AVX512F__
-									mMy = opCode(permutexvar_pd, vShRg, opCode(load_pd, &m[idxMy]));
+									mMy = opCode(permutexvar_pd, vShRg, opCode(load_pd, &m2h[idxMy]));
 	#elif	defined(__AVX2__)
-									mMy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m[idxMy])), opCode(setr_epi32, 6,7,0,1,2,3,4,5)));
+									mMy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m2h[idxMy])), opCode(setr_epi32, 6,7,0,1,2,3,4,5)));
 	#elif	defined(__AVX__)
-									acu = opCode(permute_pd, opCode(load_pd, &m[idxMy]), 0b00000101);
+									acu = opCode(permute_pd, opCode(load_pd, &m2h[idxMy]), 0b00000101);
 									vel = opCode(permute2f128_pd, acu, acu, 0b00000001);
 									mMy = opCode(blend_pd, acu, vel, 0b00000101);
 	#else
-									acu = opCode(load_pd, &m[idxMy]);
+									acu = opCode(load_pd, &m2h[idxMy]);
 									mMy = opCode(shuffle_pd, acu, acu, 0x00000001);
 	#endif
 								}
 	else
 								{
 									idxMy = ( idx - nv*XC );
-									mMy = opCode(load_pd, &m[idxMy]);
+									mMy = opCode(load_pd, &m2h[idxMy]);
 
 									if (X[1] + nv >= YC)
 									{
 										idxPy = ( idx + nv*XC - Sf );
 	#ifdef	__AVX512F__
-										mPy = opCode(permutexvar_pd, vShLf, opCode(load_pd, &m[idxPy]));
+										mPy = opCode(permutexvar_pd, vShLf, opCode(load_pd, &m2h[idxPy]));
 	#elif	defined(__AVX2__)	//AVX2
-										mPy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m[idxPy])), opCode(setr_epi32, 2,3,4,5,6,7,0,1)));
+										mPy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m2h[idxPy])), opCode(setr_epi32, 2,3,4,5,6,7,0,1)));
 	#elif	defined(__AVX__)
-										acu = opCode(permute_pd, opCode(load_pd, &m[idxPy]), 0b00000101);
+										acu = opCode(permute_pd, opCode(load_pd, &m2h[idxPy]), 0b00000101);
 										vel = opCode(permute2f128_pd, acu, acu, 0b00000001);
 										mPy = opCode(blend_pd, acu, vel, 0b00001010);
 	#else
-										vel = opCode(load_pd, &m[idxPy]);
+										vel = opCode(load_pd, &m2h[idxPy]);
 										mPy = opCode(shuffle_pd, vel, vel, 0x00000001);
 	#endif
 									}
 									else
 									{
 										idxPy = ( idx + nv*XC );
-										mPy = opCode(load_pd, &m[idxPy]);
+										mPy = opCode(load_pd, &m2h[idxPy]);
 									}
 								}
 
@@ -431,8 +431,8 @@
 													opCode(add_pd,
 														opCode(add_pd, mPy, mMy),
 															opCode(add_pd,
-																opCode(add_pd, opCode(load_pd, &m[idxPx]), opCode(load_pd, &m[idxMx])),
-																	opCode(add_pd, opCode(load_pd, &m[idxPz]), opCode(load_pd, &m[idxMz]))
+																opCode(add_pd, opCode(load_pd, &m2h[idxPx]), opCode(load_pd, &m2h[idxMx])),
+																	opCode(add_pd, opCode(load_pd, &m2h[idxPz]), opCode(load_pd, &m2h[idxMz]))
 															)
 													),
 													opCode(mul_pd, mel, m6Vec));
-- 
2.43.0


From 8358026db97ef8494b012fac22c6b893ef0bd9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:59 +0000
Subject: [PATCH 087/122] fix: the hybrid potential was wrong with more than
 one rank (modes and mean of the contrast)

---
 include/gravity/potentialClass.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gravity/potentialClass.h b/include/gravity/potentialClass.h
index 25bbfc1..dc3f67d 100644
--- a/include/gravity/potentialClass.h
+++ b/include/gravity/potentialClass.h
@@ -649,7 +649,7 @@ LogMsg (VERB_PARANOID, "[ilap] rnorm %e ",rnorm);
 			int    kx  = idx - tmp*hrLx;
 			int    ky  = tmp/rTz;
 			int    kz  = tmp - ((size_t) ky)*rTz;
-			ky += (int) zBase;
+			ky += (int) (zBase/ref);
 
 			if (ky > static_cast<int>(hrLy)) ky -= static_cast<int>(rLx);
 			if (kz > static_cast<int>(hrTz)) kz -= static_cast<int>(rTz);
@@ -797,7 +797,7 @@ LogMsg (VERB_PARANOID, "[ilap] rnorm %e ",rnorm);
 
 			MPI_Allreduce (&eA, &eAl, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
 
-			eA /= (double) tsize;
+			eA = eAl/(double) tsize;
 
 		LogMsg (VERB_PARANOID, "[bcon] contrast build, eA = %e ",eA);
 
-- 
2.43.0


From 542c345ce9d497afb072e19e637088d02bc561d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:59 +0000
Subject: [PATCH 088/122] fix: the second potential of an angle field came out
 in the wrong order

---
 include/gravity/potentialClass.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gravity/potentialClass.h b/include/gravity/potentialClass.h
index dc3f67d..de80520 100644
--- a/include/gravity/potentialClass.h
+++ b/include/gravity/potentialClass.h
@@ -277,6 +277,7 @@ LogMsg(VERB_PARANOID,"best was redfft=%d",best);
 				trackFree(eRes);
 				scaleField(afield,FIELD_M2,factor);
 				memmove(afield->m2Start(),afield->m2Cpu(),afield->Size()*afield->Precision());
+				afield->setM2Folded(false); // whatever the last potential was
 			}
 
 int red =1;
@@ -416,7 +417,7 @@ report (index, red, pad, pad, 1, "After contrast");
 
 		/* If field was unfolded, energy in m2 it is as well but we need it folded */
 		/* Requires modification for afield */
-		if (!afield->Folded()){
+		if (!afield->Folded() || afield->Field() == FIELD_AXION){
 			afield->setM2Folded(false);
 			munge(FOLD_M2);
 		} else {
-- 
2.43.0


From 2a104378eef1050ce99c8dfcf4b1c7ce42b0c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:59 +0000
Subject: [PATCH 089/122] fix: the tuning of the hybrid potential ended the
 program or blocked it for some lattices and ranks

---
 include/gravity/potentialClass.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/gravity/potentialClass.h b/include/gravity/potentialClass.h
index de80520..b9f8e2e 100644
--- a/include/gravity/potentialClass.h
+++ b/include/gravity/potentialClass.h
@@ -204,6 +204,8 @@ LogMsg(VERB_PARANOID,"Full test (index %d)",index);
 		this->Run();
 		double te = (double) Timer()*1.0e-6;
 		double delta = te-t0;
+		/* all the ranks have to take the same decision */
+		MPI_Allreduce (MPI_IN_PLACE, &delta, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
 
 LogMsg(VERB_PARANOID,"Full delta %e",delta);
 
@@ -215,6 +217,9 @@ LogMsg(VERB_PARANOID,"Full delta %e",delta);
 			/* adjust dynamically ? */
 			for (int fo = 2; fo<32; fo *=2)
 			{
+				/* the reduced lattice needs a whole number of points in every rank */
+				if (Lx % fo != 0 || Lz % fo != 0)
+					break;
 LogMsg(VERB_PARANOID,"[GVt] Hybrid test red=%d (index %d)\n",fo, index);
 				AxionFFT::removePlan("m2redFFT");
 				redfft  = fo;
@@ -224,10 +229,12 @@ LogMsg(VERB_PARANOID,"[GVt] Hybrid test red=%d (index %d)\n",fo, index);
 				t0 = (double) Timer()*1.0e-6;
 				this->Run();
 				te = (double) Timer()*1.0e-6;
-LogMsg(VERB_PARANOID,"Hybrid delta %e",te-t0);
-				if (te-t0 < delta){
+				double dnew = te-t0;
+				MPI_Allreduce (MPI_IN_PLACE, &dnew, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
+LogMsg(VERB_PARANOID,"Hybrid delta %e",dnew);
+				if (dnew < delta){
 LogMsg(VERB_PARANOID,"best");
-					delta = te-t0;
+					delta = dnew;
 					best = fo;
 					}
 
-- 
2.43.0


From 6f23a6411f912474b5c5738064a253ffbef60e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:59 +0000
Subject: [PATCH 090/122] fix: the relaxation of the hybrid potential was
 unstable with more than one layer of neighbours

---
 include/gravity/gravityPaxionXeon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gravity/gravityPaxionXeon.h b/include/gravity/gravityPaxionXeon.h
index 7af8a4d..f26db50 100644
--- a/include/gravity/gravityPaxionXeon.h
+++ b/include/gravity/gravityPaxionXeon.h
@@ -56,7 +56,7 @@
 		for (int in=0; in < NN; in++)
 			sum += PC[in];
 		// double ood2 = ppar.ood2a*sum/6.0; /* this is a smoother not a propagator */
-		double ood2 = sum/6.0; /* this is a smoother not a propagator */
+		double ood2 = 1.0/(6.0*sum); /* this is a smoother not a propagator */
 		double beta ;
 
 		switch(KDtype)
-- 
2.43.0


From ff763d000dd1f847fd6b4eb176f80eff8df6e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 091/122] fix: reducing a real field wrote the reduced field
 over the source instead of into the new field

---
 lib/reducer/reducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/reducer/reducer.cpp b/lib/reducer/reducer.cpp
index 2153335..c5b0f21 100755
--- a/lib/reducer/reducer.cpp
+++ b/lib/reducer/reducer.cpp
@@ -262,7 +262,7 @@ Scalar*	Reducer<Float>::runCpu	()
 				memcpy(mD, fOut, volData);
 			} else {
 				// Copy m to the second axionField
-				memcpy(mIn, fOut, volData);
+				memcpy(outField->mStart(), fOut, volData);
 			}
 
 			transformField<Float,complex<Float>,Float,true>(vIn, fMid, fOut, "pSpecAx");
-- 
2.43.0


From a1085094b044c59e4033f520d0df475aff70ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 092/122] fix: a reduced field had the time of the initial
 conditions instead of that of its source

---
 lib/reducer/reducer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/reducer/reducer.cpp b/lib/reducer/reducer.cpp
index c5b0f21..1043f13 100755
--- a/lib/reducer/reducer.cpp
+++ b/lib/reducer/reducer.cpp
@@ -201,6 +201,9 @@ Scalar*	Reducer<Float>::runCpu	()
 		*/
 		outField = new Scalar(axionField->BckGnd(), newLx, newLz, axionField->Precision(), axionField->Device(), *axionField->zV(), true, commSize(),
 				       axionField->Field(), axionField->LambdaT());
+		// The constructor takes the time from the initial conditions
+		*outField->zV() = *axionField->zV();
+		outField->updateR();
 	} else {
 		outField = axionField;
 	}
-- 
2.43.0


From be4ecc969eba41afe4786f7e1ede8be460c6a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 093/122] fix: reducing a paxion field took the ghosts of its
 velocity for the velocity

---
 lib/reducer/reducer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/reducer/reducer.cpp b/lib/reducer/reducer.cpp
index 1043f13..ad392a2 100755
--- a/lib/reducer/reducer.cpp
+++ b/lib/reducer/reducer.cpp
@@ -249,7 +249,7 @@ Scalar*	Reducer<Float>::runCpu	()
 			// CASE AXION, AXION_MOD
 		} else {
 			Float          *mIn  = static_cast<Float*>         (axionField->mStart());
-			Float          *vIn  = static_cast<Float*>         (axionField->vCpu());
+			Float          *vIn  = static_cast<Float*>         (axionField->vStart());
 			Float          *fOut = static_cast<Float*>         (axionField->m2Cpu());
 			complex<Float> *fMid = static_cast<complex<Float>*>(axionField->m2Cpu());
 
@@ -271,9 +271,11 @@ Scalar*	Reducer<Float>::runCpu	()
 			transformField<Float,complex<Float>,Float,true>(vIn, fMid, fOut, "pSpecAx");
 
 			if (inPlace) {
-				memcpy(vIn, fOut, volData);
+				// only a paxion velocity has ghosts
+				size_t vGhosts = (axionField->Field() == FIELD_PAXION) ? axionField->getNg() : 0;
+				memcpy(static_cast<char *>(axionField->vCpu()) + axionField->DataSize()*(newLx*newLx)*vGhosts, fOut, volData);
 			} else {
-				Float *vD      = static_cast<Float*>(outField->vCpu());
+				Float *vD      = static_cast<Float*>(outField->vStart());
 				// Copy v to the second axionField
 				memcpy(vD, fOut, volData);
 			}
-- 
2.43.0


From 2e6ed5f656cd260708c27bb4791f0f8c920cbe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 094/122] fix: simulation fields that did not start the FFT
 closed its plans when they were deleted (reduced, WKB)

---
 include/fft/fftCode.h        | 2 +-
 include/scalar/scalarField.h | 1 +
 lib/fft/fftCode.cpp          | 7 ++++---
 lib/scalar/scalarField.cpp   | 5 +++--
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/fft/fftCode.h b/include/fft/fftCode.h
index dd6c0b7..f950b81 100755
--- a/include/fft/fftCode.h
+++ b/include/fft/fftCode.h
@@ -47,7 +47,7 @@
 			inline	void *		PlanBack () { return planBackward; }
 		};
 
-		void		initFFT		(FieldPrecision prec);
+		bool		initFFT		(FieldPrecision prec);
 		void		initPlan	(Scalar * axion, FFTtype type, FFTdir dFft, std::string name, size_t red = 1);
 		FFTplan&	fetchPlan       (std::string name);
 		void		removePlan	(std::string name);
diff --git a/include/scalar/scalarField.h b/include/scalar/scalarField.h
index 7c2d0a3..38c099d 100755
--- a/include/scalar/scalarField.h
+++ b/include/scalar/scalarField.h
@@ -58,6 +58,7 @@
 
 		void	*m,   *v,   *m2,   *str;			// Cpu data
 		void	*rho, *vho, *g;								// Faxion data
+		bool	ownsFFT;								// The FFT was started for this field
 		bool	vAlloc;									// v is a block on its own, not the end of m
 #ifdef	USE_GPU
 		void	*m_d, *v_d, *m2_d;				// Gpu data
diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index 02f7f6e..5fc09f6 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -638,7 +638,7 @@ namespace AxionFFT {
 	}
 
 
-	void	initFFT		(FieldPrecision prec) {
+	bool	initFFT		(FieldPrecision prec) {
 		LogMsg (VERB_NORMAL, "Initializing FFT using %d MPI ranks...", commSize());
 
 
@@ -685,7 +685,7 @@ namespace AxionFFT {
 
 		if (init == true) {
 			LogMsg (VERB_HIGH, "FFT already initialized");
-			return;
+			return false;
 		}
 
 		LogFlush();
@@ -729,10 +729,11 @@ namespace AxionFFT {
 
 			default:
 				LogError ("Invalid field precision, can't count flops.");
-				return;
+				return false;
 		}
 
 		init = true;
+		return true;
 	}
 
 	void	initPlan	(Scalar * axion, FFTtype type, FFTdir dFft, std::string name, size_t red) {
diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 0c5adad..9fa75d3 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -130,6 +130,7 @@ const std::complex<float> If(0.,1.);
 	M2folded 	 = false;
 	rho = vho = g = nullptr;
 	eReduced   = false;
+	ownsFFT    = false;
 	mmomspace 	 = false;
 	vmomspace 	 = false;
 
@@ -463,7 +464,7 @@ const std::complex<float> If(0.,1.);
 
 	if (fieldType != FIELD_WKB && !(fieldType & FIELD_REDUCED)) {
 		prof.start();
-		AxionFFT::initFFT(prec);
+		ownsFFT = AxionFFT::initFFT(prec);
 
 		/* For spectra, reducer, genConf */
 		if (m2 != nullptr)
@@ -609,7 +610,7 @@ const std::complex<float> If(0.,1.);
 		#endif
 	}
 
-	if ((fieldType & FIELD_REDUCED) == false)
+	if (ownsFFT)	// Other fields (reduced, WKB) leave the plans to the field that has them
 		AxionFFT::closeFFT();
 //printf("%d 9\n",commRank());fflush(stdout);commSync();
 
-- 
2.43.0


From f46d00793a57c58d0e1f0d282eb46bcc0a5fc5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 095/122] fix: the plan of the velocity in a reduction did not
 have the order the reducer takes its modes in

---
 lib/fft/fftCode.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index 5fc09f6..8f9df4c 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -216,10 +216,10 @@ namespace AxionFFT {
 						}
 
 						if (dFft & FFT_FWD)
-							planForward  = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType));
+							planForward  = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType | FFTW_MPI_TRANSPOSED_OUT));
 
 						if (dFft & FFT_BCK)
-							planBackward = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType));
+							planBackward = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType | FFTW_MPI_TRANSPOSED_IN));
 						break;
 
 					case	FFT_SPAX:
@@ -417,10 +417,10 @@ namespace AxionFFT {
 						}
 
 						if (dFft & FFT_FWD)
-							planForward  = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType));
+							planForward  = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType | FFTW_MPI_TRANSPOSED_OUT));
 
 						if (dFft & FFT_BCK)
-							planBackward = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType));
+							planBackward = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType | FFTW_MPI_TRANSPOSED_IN));
 						break;
 
 					case	FFT_SPAX:
-- 
2.43.0


From e1ae6ec8a2cf2910c95b1bd5053a767336e46554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 096/122] fix: expanding a field extrapolated between layers,
 used the wrong side or skipped the type (irregular ratios, axion mod)

---
 include/utils/simpleops.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/utils/simpleops.h b/include/utils/simpleops.h
index b5f4507..1afcc25 100644
--- a/include/utils/simpleops.h
+++ b/include/utils/simpleops.h
@@ -193,7 +193,8 @@
 		Lmin = ceil(n*N'/N)
 		Lmax = floor((n+1)*N'/N)
 		*/
-		double r = ((double) nx)/((double) Nx);
+		double r  = ((double) nx)/((double) Nx);
+		double rz = ((double) nz)/((double) Nz);
 
 		#pragma omp parallel default(shared)
 		{
@@ -207,11 +208,13 @@
 			#pragma omp for schedule(static)
 			for (size_t riz = 0; riz < nz; riz++) {
 			 iz0 = (riz*Nz)/nz;
+			 if (riz*Nz % nz) iz0++;
 			 izM = ((riz+1)*Nz)/nz;
 			 if ((riz+1)*Nz % nz ==0) izM--;
 
 			 for (size_t riy = 0; riy < nx; riy++) {
 				iy0 = (riy*Nx)/nx;
+				if (riy*Nx % nx) iy0++;
 				iyM = ((riy+1)*Nx)/nx;
                                 if ((riy+1)*Nx % nx ==0) iyM--;
 				for (size_t rix = 0; rix < nx; rix++) {
@@ -236,13 +239,13 @@
 					//iy0 = (riy*Nx)/nx;
 					// if (riy*Nx % nx) iy0++;
 					ix0 = (rix*Nx)/nx;
-					// if (rix*Nx % nx) ix0++;
+					if (rix*Nx % nx) ix0++;
 					//izM = ((riz+1)*Nz)/nz;
 					//if ((riz+1)*Nz % nz ==0) izM--;
 					//iyM = ((riy+1)*Nx)/nx;
 					//if ((riy+1)*Nx % nx ==0) iyM--;
 					ixM = ((rix+1)*Nx)/nx;
-					if ((rix+1)*Nz % nx ==0) ixM--;
+					if ((rix+1)*Nx % nx ==0) ixM--;
 
 
 					for (size_t iz = iz0; iz <= izM; iz++) {
@@ -252,7 +255,7 @@
 
 								dx = r*ix - ((double) rix);
 								dy = r*iy - ((double) riy);
-								dz = r*iz - ((double) riz);
+								dz = rz*iz - ((double) riz);
 
 
 								s[ix+Nx*(iy+Nx*iz)] =
@@ -302,6 +305,7 @@
 			break;
 
 			case FIELD_AXION:
+			case FIELD_AXION_MOD:
 			if (axion->Precision() == FIELD_SINGLE) {
 				expandField<float>(axion, PFIELD_MS);
 				expandField<float>(axion, PFIELD_V); }
-- 
2.43.0


From a6597f68277e0d53212e1ace9889faf17fd221e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 097/122] fix: making new plans after a reduction at reading
 destroyed the field that was read

---
 lib/io/readWrite.pHdf5.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 893e2bc..aedd922 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1565,9 +1565,18 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			AxionFFT::removePlan("SpSx");
 			AxionFFT::removePlan("RdSxV");
 			LogMsg(VERB_NORMAL, "[rc] 3 - insert plans for correct size axion");
+			/* Making a plan overwrites its arrays: keep the field that was read */
+			size_t mBytes = (*axion)->Size()*(*axion)->DataSize();
+			std::vector<char> mKeep(mBytes), vKeep(mBytes);
+			memcpy(mKeep.data(), (*axion)->mStart(), mBytes);
+			memcpy(vKeep.data(), (*axion)->vStart(), mBytes);
 			AxionFFT::initPlan (*axion, FFT_PSPEC_AX,  FFT_FWDBCK, "pSpecAx");
-			AxionFFT::initPlan (*axion, FFT_SPSX,       FFT_FWDBCK,     "SpSx");
-			AxionFFT::initPlan (*axion, FFT_RDSX_V,     FFT_FWDBCK,    "RdSxV");
+			if ((*axion)->Field() == FIELD_SAXION) {
+				AxionFFT::initPlan (*axion, FFT_SPSX,       FFT_FWDBCK,     "SpSx");
+				AxionFFT::initPlan (*axion, FFT_RDSX_V,     FFT_FWDBCK,    "RdSxV");
+			}
+			memcpy((*axion)->mStart(), mKeep.data(), mBytes);
+			memcpy((*axion)->vStart(), vKeep.data(), mBytes);
 			LogMsg(VERB_NORMAL, "[rc] 4 - Reduction complete!");
 			// LogMsg(VERB_NORMAL, "[rc] 8 - Remove auxion");
 			// delete auxion; kkils the FFTs do not use!
-- 
2.43.0


From d3d10ad7e851aecfaecf7af685d029427b5f50ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 098/122] fix: the amplitude --mode0 of pointwise initial
 conditions was replaced by 0 or 1

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index f20b8ac..ccb9bd0 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -34,7 +34,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 	size_t local_z_start = rank*Lz;
 
 	/* used from ic */
-	double mod0  = ic.mode0 > 0.0;
+	double mod0  = ic.mode0;
 	double kCri  = ic.kcr;
 	/* for string wave */
 	int div = ic.kMax; // number of strings in one dimension
-- 
2.43.0


From 20d1c31e91832a22209189d4e1f33be53eb407fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 099/122] fix: pointwise initial conditions took the depth of
 the lattice for its length

---
 lib/gen/randXeon.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index ccb9bd0..d4033a2 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -29,7 +29,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 	const size_t V  = field->Size();
 	const double L  = field->BckGnd()->PhysSize();
 	int rank = commRank();
-	size_t Lz = Lx/commSize();
+	size_t Lz = field->Depth();
 	size_t Tz = field->TotalDepth();
 	size_t local_z_start = rank*Lz;
 
@@ -162,7 +162,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						Float theta = ((Float) ((x-Lx/2)*(x-Lx/2)+(y-Lx/2)*(y-Lx/2)+z*z));
 						theta = exp(-theta*kCri2)*mod0;
 						m[idx] = std::complex<Float>(cos(theta), sin(theta));
@@ -179,7 +179,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						if (iy>Lx/2) { y = y-Lx; }
 						if (ix>Lx/2) { x = x-Lx; }
 						Float theta = ((Float) (x*x + y*y + z*z));
@@ -197,7 +197,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						if (iy>Lx/2) { y = y-Lx; }
 						if (ix>Lx/2) { x = x-Lx; }
 						Float theta = ((Float) (x*x + y*y + z*z));
@@ -250,7 +250,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						x = ix;
 						if(1){
 						//CENTERED AT GRID, z=0
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						Float aL = ((Float) Lx)*((Float) strR);	//RADIUS
 						rho2 = (z)*(z)+(y-Lx/2)*(y-Lx/2);
 						Float rho = sqrt((Float) rho2)	;
-- 
2.43.0


From 30d136feb89dcbce556e2c2da2bf521b032d9895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 100/122] fix: an axiton in double precision was generated as a
 parametric resonance wave

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index d4033a2..2a8c465 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -435,7 +435,7 @@ void	randConf (Scalar *field, IcData ic)
 				randXeon<double,CONF_PARRES> (ma, field, ic);
 				break;
 			case CONF_AXITON:
-				randXeon<double,CONF_PARRES> (ma, field, ic);
+				randXeon<double,CONF_AXITON> (ma, field, ic);
 				break;
 			case CONF_STRWAVE:
 				randXeon<double,CONF_STRWAVE> (ma, field, ic);
-- 
2.43.0


From a65acaf0eb4e0198eeab58c4c68762c45dc602d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 101/122] fix: the straight strings of smvar stringwave
 multiplied an empty field

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index 2a8c465..07773bf 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -376,7 +376,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 				}
 				std::complex<Float> eee = std::complex<Float>(cos(theta), sin(theta));
 				for (size_t iz =0; iz<Lz; iz++){
-					m[idx+iz*Sf] *= eee;
+					m[idx+iz*Sf] = eee;
 				}
 			}
 		}
-- 
2.43.0


From 5a66642bc0de9b41683d6b18e7eb39f86b29ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 102/122] fix: the extra velocity of ctype cole was generated
 with another spectrum

---
 lib/gen/momConf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/gen/momConf.cpp b/lib/gen/momConf.cpp
index 14f0003..0548274 100644
--- a/lib/gen/momConf.cpp
+++ b/lib/gen/momConf.cpp
@@ -435,6 +435,9 @@ void	momConf (Scalar *field, MomParms mopa)
 				case MOM_COLE:
 				momXeon<double, MOM_COLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
+				case MOM_KCOLE:
+				momXeon<double, MOM_KCOLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
+				break;
 				case MOM_SPAX:
 				momXeon<double, MOM_SPAX>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
@@ -484,6 +487,9 @@ void	momConf (Scalar *field, MomParms mopa)
 				case MOM_COLE:
 				momXeon<float, MOM_COLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
+				case MOM_KCOLE:
+				momXeon<float, MOM_KCOLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
+				break;
 				case MOM_SPAX:
 				momXeon<float, MOM_SPAX>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
-- 
2.43.0


From c927635dafa643f625a52ceb81f20f321bd2e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 103/122] fix: ctype cole wrote the modes to an uninitialised
 address

---
 lib/gen/genConf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 2a0123d..4da79aa 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -885,6 +885,7 @@ void	ConfGenerator::confcole(Cosmos *myCosmos, Scalar *axionField)
 		mopa.kCrt = axionField->BckGnd()->PhysSize()/(6.283185307179586*(*axionField->zV())*ic.kcr);
 		mopa.mocoty = MOM_COLE;
 		mopa.cmplx = true;
+		mopa.mp = axionField->m2Cpu();
 	momConf(axionField, mopa);
 	myPlan.run(FFT_BCK);
 
-- 
2.43.0


From 97e9b59207fed6e4793c2f1fe9b89c4b9b640102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:12 +0000
Subject: [PATCH 104/122] fix: the mean used to normalise ctype cole started
 undefined and was divided by the wrong number of points

---
 lib/gen/genConf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 4da79aa..6986fe6 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1639,7 +1639,7 @@ double	ConfGenerator::anymean(FieldIndex ftipo)
 	/* Computes the average value of rho for normalisation purposes */
 	LogMsg(VERB_NORMAL,"[GEN] any mean %d ",ftipo);
 	void* meandro ;
-	double mean, Mean;
+	double mean = 0.0, Mean;
 
 	switch(ftipo){
 		case FIELD_M:
@@ -1675,8 +1675,8 @@ double	ConfGenerator::anymean(FieldIndex ftipo)
 		}
 
 	MPI_Allreduce(&mean, &Mean, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
-	LogMsg(VERB_NORMAL,"[GEN] mean %.10e ",Mean/((double) axionField->eSize()));
-	return Mean/((double) axionField->eSize());
+	LogMsg(VERB_NORMAL,"[GEN] mean %.10e ",Mean/((double) axionField->TotalSize()));
+	return Mean/((double) axionField->TotalSize());
 } //end rhomean
 
 
-- 
2.43.0


From 7e72fba988b5d043c08cd5df3d63582ecda5d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:19 +0000
Subject: [PATCH 105/122] fix: the velocity of a given spectrum for the complex
 field depended on the threads and its angle was lost when the strings were
 smoothed

---
 lib/gen/genConf.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 6986fe6..a99b7c4 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1060,15 +1060,18 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 		double xit = (249.48 + 38.8431*logit + 1086.06*logit*logit)/(21775.3 + 3665.11*logit)  ;
 		if (ic.siter == 1)
 			xit *= ic.kcr;
+		/* keeps ctheta in the free second half of v while the strings are made */
+		size_t VR = axionField->Size()*axionField->Precision();
+		memcpy	   (vs + VR, ms, VR);
 		if (xit > 0.0)
 		{
 			LogMsg(VERB_NORMAL,"[GEN] Creating string on top of SPAX! \n");
-			/* moves ctheta to m2*/
-			memcpy	   (m2, ms, axionField->DataSize()*axionField->Size());
-			float *lerdo = static_cast<float*>(axionField->m2Cpu());
 			putxi(xit,ic.kMax);
 			normaliseField(axionField, FIELD_M);
 		}
+		/* moves ctheta and its velocity to m2, since v is overwritten below */
+		memcpy	   (m2, vs + VR, VR);
+		memcpy	   (m2 + VR, vs, VR);
 
 		/* Build the scalar field merging the extra waves
 
@@ -1096,7 +1099,7 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				complex<float> *co_m = static_cast<complex<float>*>(axionField->mStart());
 				complex<float> *co_v = static_cast<complex<float>*>(axionField->vCpu());
 				float *f_m  = static_cast<float*>(axionField->m2Cpu());
-				float *f_v  = static_cast<float*>(axionField->vCpu());
+				float *f_v  = f_m + vol;
 				#pragma omp parallel for default(shared) schedule(static)
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
@@ -1113,12 +1116,12 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				complex<double> *co_m = static_cast<complex<double>*>(axionField->mStart());
 				complex<double> *co_v = static_cast<complex<double>*>(axionField->vCpu());
 				double *f_m  = static_cast<double*>(axionField->m2Cpu());
-				double *f_v  = static_cast<double*>(axionField->vCpu());
+				double *f_v  = f_m + vol;
 				#pragma omp parallel for default(shared) schedule(static)
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
-					float theta  = f_m[idx]/R;
-					float thetap = f_v[idx]/R-theta*Rp;
+					double theta  = f_m[idx]/R;
+					double thetap = f_v[idx]/R-theta*Rp;
 					co_m[idx] = co_m[idx]*exp(complex<double>(0.0,theta))*R;
 					co_v[idx] = complex<double>(Rp,thetap)*co_m[idx];
 				}
-- 
2.43.0


From fdcf59f92e020488d9873d4d8682a1245423ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:19 +0000
Subject: [PATCH 106/122] fix: the damping of the pre-evolution stayed on
 afterwards

---
 lib/gen/prepropa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/prepropa.cpp b/lib/gen/prepropa.cpp
index 9e00995..92311b5 100644
--- a/lib/gen/prepropa.cpp
+++ b/lib/gen/prepropa.cpp
@@ -216,7 +216,7 @@ void	prepropa2  (Scalar *axiona)
 		}
 
 		if (axiona->BckGnd()->ICData().pregammo > 0.0){
-			axiona->BckGnd()->SetGamma( axiona->BckGnd()->Gamma());
+			axiona->BckGnd()->SetGamma(gamma_aux);
 			LogMsg(VERB_NORMAL,"[prep] ReSet damping to gam = %f (was %f)",axiona->BckGnd()->Gamma(),gamma_aux);
 		}
 
-- 
2.43.0


From 0d9cd4f363dcf8355a957efcac10cda05d4cfa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:15 +0000
Subject: [PATCH 107/122] fix: the phase of the adiabatic extrapolation with a
 constant mass had a power of k missing

---
 lib/WKB/WKB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index 91e0b98..d87e96b 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -83,7 +83,7 @@ namespace AxionWKB {
 				wIni        = sqrt(k2 + m2Ini);
 				wEnd        = sqrt(k2 + m2End);
 				// LogOut("in %f, %f\n",log((mEnd+wEnd)/(mIni+wIni)),mEnd/(wEnd+mEnd) - mIni/(wIni+mIni));
-				return 0.5*k*(log((mEnd+wEnd)/(mIni+wIni)) + mEnd/(wEnd+mEnd) - mIni/(wIni+mIni))/indi3;
+				return 0.5*k2*(log((mEnd+wEnd)/(mIni+wIni)) + mEnd/(wEnd+mEnd) - mIni/(wIni+mIni))/indi3;
 				}
 
 		mIni        = indi3*pow(zIni,nqcd/2+1) ;
-- 
2.43.0


From c35aa7db338ddc575c2e0fcd7eb2dc489a79be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 108/122] fix: the phases of the adiabatic extrapolation were
 interpolated too coarsely between integer momenta

---
 lib/WKB/WKB.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index d87e96b..158eb93 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -8,7 +8,6 @@
 #include "scalar/folder.h"
 #include "scalar/scalar.h"
 #include <chrono>
-#include <WKB/spline.h>
 namespace AxionWKB {
 
 
@@ -152,7 +151,7 @@ namespace AxionWKB {
 			#pragma omp parallel for schedule(static)
 			for (size_t ik=1; ik<powMax+1; ik++)
 			{
-				double k = k0*(ik);
+				double k = k0*sqrt(ik);
 				k2Table[ik] = k*k;
 				superTable[ik] = calculatePhiexact(zIni, zCri, k, nqcd,indi3) + calculatePhiexact(zCri, zEnd, k, 0.0,indi3aux);
 			}
@@ -166,7 +165,7 @@ namespace AxionWKB {
 			LogMsg(VERB_NORMAL,"no transition! indi3aux %f nqcd %f ",indi3aux,nqcd);
 			#pragma omp parallel for schedule(static)
 			for (size_t ik=1; ik<powMax+1; ik++){
-				double k = k0*(ik);
+				double k = k0*sqrt(ik);
 				k2Table[ik] = k*k;
 				superTable[ik] = calculatePhiexact(zIni, zEnd, k, nqcd, indi3aux);
 			}
@@ -177,7 +176,7 @@ namespace AxionWKB {
 	double WKB::interpolatephi(double dk, double k2){
 	// linear interpolation in k2 (good for small k2 in NR limit... ) to be improved
 	//dk is simply the double-version of the k-integer
-	size_t in = floor(dk);
+	size_t in = floor(dk*dk);
 	return superTable[in] + (k2-k2Table[in])*(superTable[in+1]-superTable[in])/(k2Table[in+1]-k2Table[in]);
 	}
 
@@ -191,7 +190,7 @@ namespace AxionWKB {
 					      hLz(field->Depth()/2), hTz(field->TotalDepth()/2), nModes(rLx*Lz*Ly), Sm(field->Length()*field->Depth()),
 					      zIni((*field->zV())), fPrec(field->Precision())
 	{
-		powMax = floor(sqrt(2.*(Ly>>1)*(Ly>>1) + (Tz>>1)*(Tz>>1)))+1;
+		powMax = 2*hLy*hLy + hTz*hTz;	// largest squared momentum
 
 		if (field->Field() == FIELD_SAXION) {
 			LogError("Error: WKB only available for axion/WKB fields. Ignoring request");
@@ -413,10 +412,6 @@ namespace AxionWKB {
 		fprintf(file_wk,"%lf %lf\n",k2Table[i], superTable[i]);
 	fclose(file_wk);
 	}
-		tk::spline sss;
-		sss.set_points(k2Table,superTable);
-
-		LogMsg(VERB_NORMAL,"Spline built!");
 		// use nQcd1 y 2
 		double nQcdI				 = field->BckGnd()->QcdExp();
 		double nQcdE				 = field->BckGnd()->QcdExp();
@@ -509,7 +504,7 @@ namespace AxionWKB {
 			complex<double> pha ;
 
 			// WKB phase
-			double phase = sss(k2);
+			double phase = superTable[mom];
 			pha = exp(im*phase);
 			pha *= prepha;
 
-- 
2.43.0


From 630a8915a1f2249ea3d8694fb4f99b6ab8797b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 109/122] fix: the adiabatic extrapolation of a massless field
 gave NaNs or half of the phase

---
 lib/WKB/WKB.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index 158eb93..c9230bd 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -29,14 +29,13 @@ namespace AxionWKB {
 
 	//calculates v2*2F1 in the physical region
 	double v2h2F1 (double a, double b, double c, double z) {
-		if (abs(z) < 1) {
-			// if (v2 < some interesting small value limit) {
-			// 	return	simplified formula
-		// } else {
-			return z*gsl_sf_hyperg_2F1(a, b, c, 1.0-z) ;
-		} else {
+		if (z >= 1.0) // massless
+			return 1. ;
+
+		if (1.0-z >= 1.0) // non-relativistic limit
 			return 0. ;
-		}
+
+		return z*gsl_sf_hyperg_2F1(a, b, c, 1.0-z) ;
 	}
 
 	double con2F1 (double a, double b, double c, double m2ow2) {
@@ -503,6 +502,13 @@ namespace AxionWKB {
 			double ooI = sqrt(w1/w2);
 			complex<double> pha ;
 
+			// massless zero mode
+			if (w1 == 0.0) {
+				mC[idx] = m2C1[idx] + m2C2[idx]*((Float) (zEnd-zIni));
+				vC[idx] = m2C2[idx];
+				continue;
+			}
+
 			// WKB phase
 			double phase = superTable[mom];
 			pha = exp(im*phase);
@@ -719,6 +725,13 @@ namespace AxionWKB {
 				// useful variables?
 				double ooI = sqrt(w1/w2);
 
+				// massless zero mode
+				if (w1 == 0.0) {
+					m2IC[idx] = mAux[idx] + vAux[idx]*((cFloat) (zEnd-zIni));
+					vInC[idx] = vAux[idx];
+					continue;
+				}
+
 				double phi ;
 				// WKB phase
 				if (mom == 0)
-- 
2.43.0


From ecfa0bff088009cc779603531fa69896af82de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 110/122] fix: the adiabatic extrapolation into a second field
 took one layer of ghosts for granted

---
 lib/WKB/WKB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index c9230bd..4b3adf7 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -298,7 +298,7 @@ namespace AxionWKB {
 				LogMsg(VERB_NORMAL, "done!");
 
 				// pointers for copying 1->2
-				char *mOr = static_cast<char *>(field->mCpu()) + field->Surf()*field->DataSize();
+				char *mOr = static_cast<char *>(field->mStart());
 				char *vOr = static_cast<char *>(field->vCpu());
 
 				char *mDt = static_cast<char *>(tmp->mCpu());
@@ -662,7 +662,7 @@ namespace AxionWKB {
 			std::complex<cFloat> *vInC  = static_cast<std::complex<cFloat>*>(field->vCpu());
 			//
 			// tambien necesitare punteros float a m y v de axion1
-			cFloat	      	 *mIn  = static_cast<cFloat *>(field->mCpu()) + field->Surf();	// Theta ghosts
+			cFloat	      	 *mIn  = static_cast<cFloat *>(field->mStart());	// Theta ghosts
 			cFloat	      	 *vIn  = static_cast<cFloat *>(field->vCpu());
 			cFloat	      	 *m2In = static_cast<cFloat *>(field->m2Cpu());
 
-- 
2.43.0


From 863befb2f765e2e7fb871079beb75b4a25dd91b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 111/122] fix: the adiabatic extrapolation into a second field
 ignored the end of the growth of the mass

---
 lib/WKB/WKB.cpp | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index 4b3adf7..af66537 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -415,7 +415,7 @@ namespace AxionWKB {
 		double nQcdI				 = field->BckGnd()->QcdExp();
 		double nQcdE				 = field->BckGnd()->QcdExp();
 
-		if (zEnd > zC )
+		if (zEnd > zC || zIni >= zC)
 			nQcdE = 0.0;
 
 		if (zIni >= zC )
@@ -615,16 +615,25 @@ namespace AxionWKB {
 			double aMass2zEnd2 = field->AxionMassSq(zEnd)*zEnd*zEnd ;
 			double aMass2zIni1 = aMass2zIni2/zIni;
 			double aMass2zEnd1 = aMass2zEnd2/zEnd;
-			double nQcd				 = field->BckGnd()->QcdExp();
-			if (zEnd > field->BckGnd()->ZThRes() && zIni > field->BckGnd()->ZThRes())
-				nQcd = 0.0;
-			double zBase1      = 0.25*(nQcd+2.)*aMass2zIni1;
-			double zBase2      = 0.25*(nQcd+2.)*aMass2zEnd1;
-			double phiBase1	   = 2.*zIni/(4.+nQcd);
-			double phiBase2	   = 2.*zEnd/(4.+nQcd);
-			double n2p1        = 1.+nQcd/2.;
-			//double nn1         = 1./(2.+nQcd)+0.5;
-			double nn2         = 1./(2.+nQcd)+1.0;
+			double zC          = field->BckGnd()->ZThRes();
+			double aMass2zC2   = field->AxionMassSq(zC)*zC*zC ;
+			double nQcdI				 = field->BckGnd()->QcdExp();
+			double nQcdE				 = field->BckGnd()->QcdExp();
+			if (zEnd > zC || zIni >= zC)
+				nQcdE = 0.0;
+			if (zIni >= zC)
+				nQcdI = 0.0;
+			double zBase1      = 0.25*(nQcdI+2.)*aMass2zIni1;
+			double zBase2      = 0.25*(nQcdE+2.)*aMass2zEnd1;
+
+			// integral of the frequency w from 0 to z with mass^2 ~ z^nQcd
+			auto phase = [](double z, double w, double k2, double nQcd) {
+				double phiBase     = 2.*z/(4.+nQcd);
+				if (k2 == 0.0)
+					return phiBase*w;
+				// the last argument is v2, but the 2F1 function has 1-v2
+				return phiBase*w*(1.+(1.+nQcd/2.)*v2h2F1(0.5, 1., 1./(2.+nQcd)+1.0, k2/(w*w)));
+			};
 
 			double lSize	   = field->BckGnd()->PhysSize();
 			double minmom2	   = (4.*M_PI*M_PI)/(lSize*lSize);
@@ -732,18 +741,11 @@ namespace AxionWKB {
 					continue;
 				}
 
-				double phi ;
 				// WKB phase
-				if (mom == 0)
-					phi = phiBase2*w2 - phiBase1*w1; // I think this was wrong...
-				else {
-	      // old Javi Alex implementation
-				//	phi =  phiBase2*w2*(1.+n2p1*h2F1(1., nn1, nn2, -aMass2zEnd2/k2))
-				//	      -phiBase1*w1*(1.+n2p1*h2F1(1., nn1, nn2, -aMass2zIni2/k2));
-	      // new Javi implementation to avoid negative arguments
-	      // note that the last argument is v2, but the 2F1 funciton shoul have the 1-v2
-					phi =  phiBase2*w2*(1.+n2p1*v2h2F1(0.5, 1., nn2, k2/(w2*w2)))
-					      -phiBase1*w1*(1.+n2p1*v2h2F1(0.5, 1., nn2, k2/(w1*w1)));
+				double phi = phase(zEnd, w2, k2, nQcdE) - phase(zIni, w1, k2, nQcdI);
+				if (zIni < zC && zC < zEnd) {
+					double wC = sqrt(k2 + aMass2zC2);
+					phi += phase(zC, wC, k2, nQcdI) - phase(zC, wC, k2, nQcdE);
 				}
 
 				// phasor
-- 
2.43.0


From 604453a3f73dd39b9f16d960fa3f132ea76967f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:18 +0000
Subject: [PATCH 112/122] fix: reading the tracked axitons returned no value
 and ran into the next function

---
 include/axiton/trackerClass.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/axiton/trackerClass.h b/include/axiton/trackerClass.h
index db37982..1f61711 100644
--- a/include/axiton/trackerClass.h
+++ b/include/axiton/trackerClass.h
@@ -313,6 +313,7 @@
 		commSync();
 		LogMsg(VERB_HIGH," [UA] Axitons read, index = %d (number of times?)",index);
 
+		return index;
 	}
 
 
-- 
2.43.0


From 37e8ea4cdc29a89b89c79e1110adc03d5f7229d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:18 +0000
Subject: [PATCH 113/122] fix: tracked axitons were read at another point when
 the field was unfolded

---
 include/axiton/trackerClass.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/axiton/trackerClass.h b/include/axiton/trackerClass.h
index 1f61711..a0fa76c 100644
--- a/include/axiton/trackerClass.h
+++ b/include/axiton/trackerClass.h
@@ -298,12 +298,7 @@
 			#pragma omp parallel for schedule(static)
 			for (int iidx = 0 ; iidx < idxlist.size(); iidx++)
 			{
-					size_t fidx = Axilist[iidx].Idx();
-					size_t X[3];
-					indexXeon::idx2Vec (fidx, X, Lx);
-					size_t sy  = X[1]/(Lx/shift);
-					size_t iiy = X[1] - (sy*Lx/shift);
-					size_t idx = X[2]*S + shift*(iiy*Lx+X[0]) +sy;
+					size_t idx = unfoldidx(Axilist[iidx].Idx());
 					Axilist[iidx].AddPoint( (double) m[idx], (double) v[idx]);
 					/* energy? */
 			}
-- 
2.43.0


From f4292da948c6947ffa3bcb2fe0ee44f76884c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:18 +0000
Subject: [PATCH 114/122] fix: printing the tracked axitons failed if a rank
 has none

---
 include/axiton/trackerClass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/axiton/trackerClass.h b/include/axiton/trackerClass.h
index a0fa76c..3fb93c2 100644
--- a/include/axiton/trackerClass.h
+++ b/include/axiton/trackerClass.h
@@ -784,7 +784,7 @@ LogMsg(VERB_HIGH,"Total %d",nAx_l);
 	int locax = 0;
 	for (int i = 0 ; i < nAx_l ; i++  )
 	{
-		if (locax > nAx[writtingrank]-1){
+		while (locax > nAx[writtingrank]-1){
 			writtingrank++;
 			locax = 0;
 		}
-- 
2.43.0


From 566ad6e2d72c108d9d684bd2314aa8483191e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:18 +0000
Subject: [PATCH 115/122] fix: the first dense point of each thread and of each
 group was left out of its group

---
 include/axiton/trackerClass.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/axiton/trackerClass.h b/include/axiton/trackerClass.h
index 3fb93c2..c075eaf 100644
--- a/include/axiton/trackerClass.h
+++ b/include/axiton/trackerClass.h
@@ -446,6 +446,7 @@
 					/* Canditates are saved unfolded */
 					#pragma omp critical
 					AddTagPoint(afield->Folded() ? unfoldidx(iidx) : iidx);
+					accepted++;
 					m2h[iidx] = accepted;
 
 						// if follow in time is wanted
@@ -454,7 +455,6 @@
 						// #pragma omp critical (candypoint)
 						// 	bola = AddAxiton(esta); // Axitons track evolution in time, ID is fidx
 						// if (bola)
-					accepted++;
 
 
 				}
@@ -551,6 +551,7 @@
 				newgroup.setID(groupId);
 				/* Adds the tagged point to the Group with unfolded idx */
 				newgroup.AddPoint(idx);
+				m2h[midx] = groupId;
 
 				/* Main WHILE loop, checks for neighbours of all points in the temp group until all are tagged
 				adds points to the group and iterates */
-- 
2.43.0


From 7c4864b62230e84573e53c4ad82380936a124e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:18 +0000
Subject: [PATCH 116/122] fix: grouping a folded field looked at the tag of
 another point

---
 include/axiton/trackerClass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/axiton/trackerClass.h b/include/axiton/trackerClass.h
index c075eaf..7c51e2a 100644
--- a/include/axiton/trackerClass.h
+++ b/include/axiton/trackerClass.h
@@ -540,7 +540,7 @@
 				we use STRING_WALL for those points which are already grouped in a closed group
 				THAT WOULD BE WEIRD */
 				LogMsg(VERB_PARANOID,"[GA] tag %d",tag[midx]);
-				if (tag[idx] & STRING_WALL){
+				if (tag[midx] & STRING_WALL){
 					LogMsg(VERB_PARANOID,"[GA] already studied ... continue %d",idx);
 					continue;
 				}
-- 
2.43.0


From 8d4268a6e1c501b195c59a7b8cf22dee97c20a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:18 +0000
Subject: [PATCH 117/122] fix: the first point of the second plane was not
 grouped with its neighbour below

---
 include/axiton/trackerClass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/axiton/trackerClass.h b/include/axiton/trackerClass.h
index 7c51e2a..c80eb4e 100644
--- a/include/axiton/trackerClass.h
+++ b/include/axiton/trackerClass.h
@@ -600,7 +600,7 @@
 						/* Avoid ghost zones */
 						if (idx2 < V-S)
 							nebo.push_back(idx2+S);
-						if (idx2 > S)
+						if (idx2 >= S)
 							nebo.push_back(idx2-S);
 
 						/* Loop over neighbours to incorporate them */
-- 
2.43.0


From 1a5ca24e6586f3a4740d3b9b79c11505cffb3d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:18 +0000
Subject: [PATCH 118/122] fix: threads grouping dense points at the same time
 raced for the groups

---
 include/axiton/trackerClass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/axiton/trackerClass.h b/include/axiton/trackerClass.h
index c80eb4e..d72707f 100644
--- a/include/axiton/trackerClass.h
+++ b/include/axiton/trackerClass.h
@@ -526,7 +526,7 @@
 			STRING_XY_POSITIVE = point in the group
 			STRING_MASK        = point belonging to some group (from SearchAxitons)*/
 
-			#pragma omp parallel for schedule(static) shared(groupId)
+			/* One group after the other, they grow into each other */
 			for (int iidx = 0 ; iidx < cidxlist.size(); iidx++)
 			{
 				/* Finds the idx of the tagged point in the tracker list */
-- 
2.43.0


From f46e191b5b68403695f86377ecdd729e3a0a8036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:07 +0000
Subject: [PATCH 119/122] fix: the velocities of the particles were written
 beyond the velocity field

---
 lib/gadget/gadget_output.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index b543b7e..0b811af 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -4,6 +4,7 @@
 #include <complex>
 #include <hdf5.h>
 #include <random>
+#include <vector>
 #include <fftw3-mpi.h>
 
 #include "scalar/scalarField.h"
@@ -616,6 +617,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
        Writes in slabs to corresponding hdf5 datasets
     */
     LogOut("\n[gadgetme] Creating particle coordinates and velocities ... ");
+    std::vector<float> vBuffer(slab*3);	// There is no room for the velocities of a slab in the field
     size_t lPos = 0;
     for (hsize_t zDim = 0; zDim < Nslabs; zDim++)
     {
@@ -640,7 +642,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
 	    if (dataSize == 4) 
 	    {	
 	        float *axOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->m2Cpu())+dataSize*(slab*(Lz*2+1))));
-		float  *vOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->vBackGhost())+dataSize*(slab*(Lz*2+1))));
+		float  *vOut = vBuffer.data();
                 float  *mOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->m2Cpu())+ (slab*(Lz+1))*dataSize));
 
                 for (hssize_t i=0; i<nPrti; i++)
@@ -753,7 +755,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
 	if ((rErr < 0)) { LogError ("Error writing position dataset"); prof.stop(); exit(0); }
 	
 	H5Sselect_hyperslab(vSpc2, H5S_SELECT_SET, vOffset, stride, vSlab, nullptr);
-	auto vErr = H5Dwrite (vSt2_id, dataType, memSpace, vSpc2, plist_id, static_cast<char *> (axion->vBackGhost())+(slab*(Lz*2+1)*dataSize));
+	auto vErr = H5Dwrite (vSt2_id, dataType, memSpace, vSpc2, plist_id, vBuffer.data());
 	if ((vErr < 0)) { LogError ("Error writing velocity dataset"); prof.stop(); exit(0); }
 	
         H5Sselect_hyperslab(mSpce, H5S_SELECT_SET, &offset, NULL, &slab, NULL);
-- 
2.43.0


From a42c9386fd11f95e140492a15eb144fbdccbbb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:07 +0000
Subject: [PATCH 120/122] fix: balancing the number of particles also drew a
 cell beyond the last one

---
 lib/gadget/gadget_output.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index 0b811af..e4ea3d8 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -1262,7 +1262,7 @@ void    createGadget_Halo(Scalar *axion, size_t realN=0, size_t nParts=0, double
 
 		std::random_device rSd;
 		std::mt19937_64 rng(rSd());
-		std::uniform_int_distribution<size_t> uni  (0, slab*Lz);
+		std::uniform_int_distribution<size_t> uni  (0, slab*Lz - 1);
 
 		LogOut("[gad] Balancing locally adding/substracting points...\n",aPart,nPrt);
 		// while (aPart != total)   [old global version]
-- 
2.43.0


From a58559245725f34b740d497cfd1ecd0e9c9dd01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:07 +0000
Subject: [PATCH 121/122] fix: rank 0 could be asked for a negative number of
 particles to make up for the rounding of the others

---
 lib/gadget/gadget_output.cpp | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index e4ea3d8..4f28fc6 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -1062,32 +1062,18 @@ void    createGadget_Halo(Scalar *axion, size_t realN=0, size_t nParts=0, double
 	scaleField(axion,FIELD_M2,factor);
 	LogOut("\n[gad3] Energy field normalised!\n"); // m2 now holds the density contrast 
 
-	double localoca = round(eMean_local*rOff/neweMean);
-	size_t nPrt_local = (size_t) localoca;
+	/* The share of each rank, rounded such that the sum is nPrt and no rank is more than one particle away from its share */
+	double localoca = eMean_local*rOff/neweMean, sumoca = 0.0;
+	MPI_Scan(&localoca, &sumoca, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
+	long long int nPrt_upto = llround(sumoca), nPrt_before = 0;
+	MPI_Exscan(&nPrt_upto, &nPrt_before, 1, MPI_LONG_LONG_INT, MPI_MAX, MPI_COMM_WORLD);
+	if (commRank() == 0)
+		nPrt_before = 0;
+	size_t nPrt_local = (size_t) (nPrt_upto - nPrt_before);
 	printf("[gad] rank %d should take %lu particles\n",commRank(),nPrt_local);
 	fflush(stdout);
 	commSync();
 
-	size_t nPrt_temp;
-	MPI_Allreduce(&nPrt_local, &nPrt_temp, 1, MPI_UNSIGNED_LONG_LONG, MPI_SUM, MPI_COMM_WORLD);
-	if (nPrt_temp > nPrt)
-	{
-		//LogOut("[gad3] sum is %lu, which is %lu too many \n",nPrt_temp,nPrt_temp-nPrt);
-		LogOut("[gad3] Rank 0 readjusts itself from %lu to nPart = %lu\n",nPrt_local,nPrt_local + (nPrt-nPrt_temp) );
-		if (commRank()==0)
-			nPrt_local = nPrt_local + (nPrt-nPrt_temp);
-	}
-	else 
-	{
-		//LogOut("[gad3] sum is %lu, which is %lu too few \n",nPrt_temp,nPrt-nPrt_temp);
-		LogOut("[gad3] Rank 0 readjusts itself from %lu to nPart = %lu ...",nPrt_local,nPrt_local + (nPrt-nPrt_temp) );
-		if (commRank()==0){
-			nPrt_local = nPrt_local + (nPrt-nPrt_temp);
-			LogOut("Done! \n");
-			}
-
-	}
-
 	/*	Create space for writing the raw data to disk with chunked access	*/
 	
 	hsize_t nPrt_h = (hsize_t)  nPrt;
-- 
2.43.0


From 7cb134a5699d7e7dc10207cc6a79f34819a6f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:07 +0000
Subject: [PATCH 122/122] fix: handing particles from rank to rank for the halo
 snapshot could hang, lose particles or overflow its buffer; each rank writes
 its own

---
 lib/gadget/gadget_output.cpp | 250 ++++-------------------------------
 1 file changed, 29 insertions(+), 221 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index 4f28fc6..d8fc473 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -1294,51 +1294,18 @@ void    createGadget_Halo(Scalar *axion, size_t realN=0, size_t nParts=0, double
 
 	commSync();
 
-	const int cSize = commSize();
-
-	/* hssize_t long long integer? */
-	// hssize_t excess = tPart - rOff;
-	hssize_t excess = tPart - nPrt/commSize();
-	printf("rankd %d (desired particles - average per rank) %d  \n", commRank(),excess); fflush(stdout);
-
-	commSync();
-
-	void *tmpPointer;
-	trackAlloc (&tmpPointer, sizeof(hssize_t)*cSize);
-	hssize_t *exStat = static_cast<hssize_t*>(tmpPointer);
+	/* Each rank writes its particles after those of the ranks before, in blocks of a slab at most */
+	unsigned long long int nMine = tPart, nBefore = 0, nMost = 0;
+	MPI_Exscan (&nMine, &nBefore, 1, MPI_UNSIGNED_LONG_LONG, MPI_SUM, MPI_COMM_WORLD);
+	if (myRank == 0)
+		nBefore = 0;
+	MPI_Allreduce (&nMine, &nMost, 1, MPI_UNSIGNED_LONG_LONG, MPI_MAX, MPI_COMM_WORLD);
 
 	hssize_t	   remain  = 0;
-	hssize_t	   missing = 0;
 	size_t lPos    = 0;
 
-	int	rSend = 0, rRecv = 0;
-
-	commSync();
-
-	if (cSize > 1) {
-		LogOut("\nGathering excess (MPI)\n");
-
-		MPI_Allgather (&excess, 1, MPI_LONG_LONG_INT, exStat, 1, MPI_LONG_LONG_INT, MPI_COMM_WORLD);
-
-		for (int i=1; i<cSize; i++) {
-			if (exStat[i] > exStat[rSend])
-				rSend = i;
-		}
-
-		for (int i=1; i<cSize; i++) {
-			if (exStat[i] < exStat[rRecv])
-				rRecv = i;
-		}
-		LogOut("Send %d Receive %d \n",rSend,rRecv);
-	}
-
-	/*Calculate number of required slabs!*/
-
-hsize_t Nslabs = nPrt_h/slab/commSize();
-if (nPrt_h > Nslabs*slab*commSize())
-	LogOut("\nError: Nparticles is not a multiple of the slab size! (we do a few less) blame it on Alex!\n",Nslabs);
-LogOut("\nRecalculated slabs to print %lu \n",Nslabs);
-
+	hsize_t Nslabs = (nMost + slab - 1)/slab;
+	LogOut("\nBlocks to print %lu \n",Nslabs);
 
 	/* Main loop, fills slabs with particles and writes to disk */
 
@@ -1348,7 +1315,7 @@ LogOut("\nRecalculated slabs to print %lu \n",Nslabs);
 	{
 		//LogOut("zDim %zu\n", zDim);
 		/*	Select the slab in the file	*/
-		offset = (((hsize_t) (myRank*Nslabs)) + zDim)*slab;
+		offset = nBefore + std::min<hsize_t>(zDim*slab, nMine);
 		hsize_t vOffset[2] = { offset , 0 };
 
 		std::random_device rSd;
@@ -1379,7 +1346,7 @@ LogOut("\nRecalculated slabs to print %lu \n",Nslabs);
 
 				if (dataSize == 4) {
 					float	*axOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->m2Cpu())+dataSize*(slab*(Lz*2+1))));
-					for (hssize_t i=0; i<remain; i++)
+					for (; (remain > 0) && (tPrti < slab); remain--)
 					{
 						float xO = (nX + 0.5f + gauss(rng) )*bSize/((float) totlX);
 						float yO = (nY + 0.5f + gauss(rng) )*bSize/((float) totlX);
@@ -1402,8 +1369,6 @@ LogOut("\nRecalculated slabs to print %lu \n",Nslabs);
 				} else {
 					// no double precision version
 				}
-
-				remain = 0;
 			}
 
 		/* main function */
@@ -1447,179 +1412,16 @@ LogOut("\nRecalculated slabs to print %lu \n",Nslabs);
 			if (yC == totlX) { yC = 0; zC++; }
 		};
 
-		if (cSize > 1) {
-			missing = slab - tPrti;
-
-			int    aMiss = 0;
-			size_t cPos  = lPos;
-
-			MPI_Allreduce(&missing, &aMiss, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
-
-
-
-			/* a rank misses particles > start redistributing loop */
-			while (aMiss > 0) {
-LogOut("Missing %08d\n", aMiss);
-
-
-				/* rank rRecv receives and fills the slab */
-				if (myRank == rRecv) {
-					int	toRecv = 0;
-					size_t	iPos   = 0, ePos = 0;
-printf("Rank %d requesting %d particles\n", rRecv, missing); fflush(stdout);
-					MPI_Send (&missing, 1, MPI_INT, rSend, 27, MPI_COMM_WORLD);
-					MPI_Recv (&toRecv,  1, MPI_INT, rSend, 28, MPI_COMM_WORLD, nullptr);
-printf("Rank %d will get %d particles\n", rRecv, toRecv); fflush(stdout);
-					MPI_Recv (&iPos, 1, MPI_UNSIGNED_LONG_LONG, rSend, 29, MPI_COMM_WORLD, nullptr);
-					MPI_Recv (&ePos, 1, MPI_UNSIGNED_LONG_LONG, rSend, 30, MPI_COMM_WORLD, nullptr);
-					size_t aLength = ePos - iPos;
-					size_t gAddr = slab*Lz;
-					MPI_Recv (&(axTmp[gAddr]), aLength, MPI_INT, rSend, 26, MPI_COMM_WORLD, nullptr);
-printf("Rank %d data received\n", rRecv); fflush(stdout);
-
-					missing -= toRecv;
-					excess  += toRecv;
-					cPos    += toRecv;
-
-					yC  = iPos/totlX;
-					zC  = yC  /totlX;
-					xC  = iPos - totlX*yC;
-					yC -= zC*totlX;
-					zC += Lz*rSend;
-
-					for (int i=0; i<aLength; i++) {
-if ((i%1024) == 0)
-printf("Rank %d processing site %06d\n", rRecv, i); fflush(stdout);
-						int nPhere = axTmp[gAddr+i];
-
-						if (dataSize == 4) {
-							float	*axOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->m2Cpu())+dataSize*(slab*(Lz*2+1))));
-
-							for (int j=0; j<nPhere; j++) {
-								float xO = (xC + 0.5f + gauss(rng) )*bSize/((float) totlX);
-								float yO = (yC + 0.5f + gauss(rng) )*bSize/((float) totlX);
-								float zO = (zC + 0.5f + gauss(rng) )*bSize/((float) totlZ);
-
-								if (xO < 0.0f) xO += bSize;
-								if (yO < 0.0f) yO += bSize;
-								if (zO < 0.0f) zO += bSize;
-
-								if (xO > bSize) xO -= bSize;
-								if (yO > bSize) yO -= bSize;
-								if (zO > bSize) zO -= bSize;
-
-								axOut[tPrti*3+0] = xO;
-								axOut[tPrti*3+1] = yO;
-								axOut[tPrti*3+2] = zO;
-								tPrti++;
-							}
-						} else { }
-
-						xC++;
-
-						if (xC == totlX) { xC = 0; yC++; }
-						if (yC == totlX) { yC = 0; zC++; }
-					}
-				}
-
-
-				/* the rank with the largest excess of particles sends some away*/
-				if (myRank == rSend) {
-					size_t iPos = lPos;
-					int toSend = 0;
-					int i = 0;
-					MPI_Recv (&toSend, 1, MPI_INT, rRecv, 27, MPI_COMM_WORLD, nullptr);
-printf("Rank %d received request for %d particles\n", rSend, toSend); fflush(stdout);
-
-					if (toSend > excess)
-						toSend = excess;
-
-					size_t gAddr = slab*Lz;
-
-					int pSent = 0;
-
-					if (remain) {
-						iPos = lPos - 1;
-						axTmp[gAddr] = 0;
-						while ((remain > 0) && (pSent < toSend)) {
-							axTmp[gAddr]++;
-							pSent++;
-							remain--;
-						}
-						i++;
-					}
-
-					if (pSent == toSend)
-						break;
-
-printf("Rank %d is preparing the data to be sent\n", rSend); fflush(stdout);
-					do {
-if ((pSent%1024) == 0)
-printf("Rank %d preparing particle %06d\n", rSend, pSent); fflush(stdout);
-						int nPhere = axTmp[lPos];
-						axTmp[gAddr+i] = 0;
-
-						if (nPhere > 0) {
-							while ((nPhere > 0) && (pSent < toSend)) {
-								nPhere--;
-								axTmp[gAddr+i]++;
-								pSent++;
-							}
-							axTmp[lPos] = nPhere;
-						}
-
-						if (pSent < toSend) {
-							i++;
-							lPos++;
-						} else
-							break;
-
-						if (i == slab) {
-							toSend = pSent;
-							break;
-						}
-					}	while(true);
-
-					MPI_Send (&toSend, 1, MPI_INT, rRecv, 28, MPI_COMM_WORLD);
-					size_t ePos = (i==slab) ? lPos : lPos+1;
-					MPI_Send(&iPos, 1, MPI_UNSIGNED_LONG_LONG, rRecv, 29, MPI_COMM_WORLD);
-					MPI_Send(&ePos, 1, MPI_UNSIGNED_LONG_LONG, rRecv, 30, MPI_COMM_WORLD);
-					MPI_Send(&(axTmp[gAddr]), (ePos-iPos), MPI_INT, rRecv, 26, MPI_COMM_WORLD);
-
-					excess -= toSend;
-				}
-
-printf("Rank %d syncing\n", myRank); fflush(stdout);
-				commSync();
-
-				MPI_Allgather (&excess, 1, MPI_LONG_LONG_INT, exStat, 1, MPI_LONG_LONG_INT, MPI_COMM_WORLD);
-LogOut("Excess broadcasted\n");
-				rSend = rRecv = 0;
-
-				for (int i=1; i<cSize; i++) {
-					if (exStat[i] > exStat[rSend])
-						rSend = i;
-				}
-
-				for (int i=1; i<cSize; i++) {
-					if (exStat[i] < exStat[rRecv])
-						rRecv = i;
-				}
-
-				LogOut("Excess: ");
-				for (int ii = 0; ii<cSize; ii++){
-					LogOut("%ld ",exStat[ii]);
-				}
-				LogOut("\n");
-
-				MPI_Allreduce(&missing, &aMiss, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
-			} // end aMiss !=0 No rank is missing a particle
-		} // END MPI REDISTRIBUTION
-
-
 // printf("\nSlice completed\n"); fflush(stdout);
 
-		H5Sselect_hyperslab(vSpc1, H5S_SELECT_SET, vOffset, stride, vSlab, nullptr);
+		const hsize_t vStart[2] = { 0, 0 }, vCount[2] = { tPrti, 3 };
+		if (tPrti > 0) {
+			H5Sselect_hyperslab(memSpace, H5S_SELECT_SET, vStart, stride, vCount, nullptr);
+			H5Sselect_hyperslab(vSpc1, H5S_SELECT_SET, vOffset, stride, vCount, nullptr);
+		} else {
+			H5Sselect_none(memSpace);
+			H5Sselect_none(vSpc1);
+		}
 //		H5Sselect_hyperslab(vSpc2, H5S_SELECT_SET, vOffset, stride, vSlab, nullptr);
 
 		/*	Write raw data	*/
@@ -1640,11 +1442,18 @@ LogOut("Excess broadcasted\n");
 	for (hsize_t zDim = 0; zDim < Nslabs; zDim++)
 	{
 		/*	Select the slab in the file	*/
-		offset = (((hsize_t) (myRank*Nslabs)) + zDim)*slab;
-
-		H5Sselect_hyperslab(sSpce, H5S_SELECT_SET, &offset, NULL, &slab, NULL);
+		offset = nBefore + std::min<hsize_t>(zDim*slab, nMine);
+		const hsize_t iStart = 0, iCount = std::min<hsize_t>(slab, nMine - (offset - nBefore));
+
+		if (iCount > 0) {
+			H5Sselect_hyperslab(semSpace, H5S_SELECT_SET, &iStart, NULL, &iCount, NULL);
+			H5Sselect_hyperslab(sSpce, H5S_SELECT_SET, &offset, NULL, &iCount, NULL);
+		} else {
+			H5Sselect_none(semSpace);
+			H5Sselect_none(sSpce);
+		}
 
-		hsize_t iBase = slab*(myRank*Nslabs + zDim);
+		hsize_t iBase = offset;
 		hsize_t *iArray = static_cast<hsize_t*>(vArray);
 		#pragma omp parallel for shared(vArray) schedule(static)
 		for (hsize_t idx = 0; idx < slab; idx++)
@@ -1690,7 +1499,6 @@ LogOut("Excess broadcasted\n");
 	H5Pclose (plist_id);
 	H5Fclose (file_id);
 
-	trackFree(exStat);
     prof.stop();
 
 }
-- 
2.43.0

